//! The VRF itself: enumeration of keys, inputs, mutated and strategically forged proofs, and of what a bounded
//! algebraic adversary can derive from public data.
use crate::engine::*;
use crate::spec;
use crate::world::*;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto as C, RistrettoPoint as P};
use curve25519_dalek::traits::Identity;
use curve25519_dalek::Scalar;
use ephemeral_vrf::vrf as off;
use hkdf::Hkdf;
use sha2::{Digest, Sha256, Sha512};
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use std::time::Instant;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn sc(b: [u8; 32]) -> Scalar {
    Scalar::from_bytes_mod_order(b)
}
/// discrete log of the hashed input, as documented
fn dlog(input: &[u8; 32]) -> Scalar {
    sc(sha(&[b"VRF-Ephem-HashToPoint", input]))
}
fn challenge(parts: &[&[u8]]) -> Scalar {
    let mut v: Vec<&[u8]> = vec![b"VRF-Ephem-Challenge"];
    v.extend(parts);
    sc(sha(&[b"VRF-Ephem-HashToScalar", &sha(&v)]))
}

/// the three verifiers: (on chain, off chain, independent)
fn verdicts(pk: &[u8; 32], input: &[u8; 32], p: &Proof) -> (bool, bool, bool) {
    let on = ephemeral_vrf_api::verify::verify_vrf(
        &PodRistrettoPoint(*pk),
        input,
        &PodRistrettoPoint(p.output),
        (&PodRistrettoPoint(p.cb), &PodRistrettoPoint(p.ch), &PodScalar(p.s)),
    );
    let offv = match (C(*pk).decompress(), Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s))) {
        (Some(k), Some(s)) => off::verify_vrf(k, input, C(p.output), (C(p.cb), C(p.ch), s)),
        _ => false,
    };
    (on, offv, spec::verify(pk, input, p))
}
fn no_panic3(pk: &[u8; 32], input: &[u8; 32], p: &Proof, v: &mut Vec<Viol>) -> Option<(bool, bool, bool)> {
    match crate::rt::no_panic(|| verdicts(pk, input, p)) {
        Ok(x) => Some(x),
        Err(e) => {
            v.push(viol(&["C17"], "verifier-panics", format!("a verifier panics: {e}")));
            None
        }
    }
}
/// a proof that must be rejected by everybody
fn must_reject(what: &str, pk: &[u8; 32], input: &[u8; 32], p: &Proof, v: &mut Vec<Viol>, st: &mut Stats) {
    let Some((on, offv, ind)) = no_panic3(pk, input, p, v) else { return };
    st.op("verify", on);
    if on {
        v.push(viol(&["C17", "C03"], "forgery-on-chain", format!("the on-chain verifier accepts {what}")));
    }
    if offv {
        v.push(viol(&["C17"], "forgery-off-chain", format!("the oracle's verifier accepts {what}")));
    }
    if ind && !on && !offv {
        v.push(viol(&["C17"], "reference-accepts", format!("only the reference verifier accepts {what}")));
    }
    if on != offv {
        v.push(viol(&["C17"], "verifiers-disagree", format!("{what}: on chain {on}, off chain {offv}")));
    }
}

pub struct Key {
    pub name: String,
    pub sk: Scalar,
    pub pkp: P,
    pub pk: [u8; 32],
}
pub fn keys(n: usize) -> Vec<Key> {
    (0..n)
        .map(|i| {
            let name = format!("vrf-key-{i}");
            let (sk, pkp) = off::generate_vrf_keypair(&keypair(&name));
            Key { name, sk, pkp, pk: pkp.compress().to_bytes() }
        })
        .collect()
}
pub fn inputs(bits: bool, n: usize) -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [255; 32], [1; 32]];
    if bits {
        for i in 0..256 {
            let mut x = [0u8; 32];
            x[i / 8] ^= 1 << (i % 8);
            v.push(x);
            let mut x = [255u8; 32];
            x[i / 8] ^= 1 << (i % 8);
            v.push(x);
        }
        // around the group order
        let l = (-Scalar::ONE).to_bytes();
        for d in 0..4u8 {
            let mut x = l;
            x[0] = x[0].wrapping_add(d);
            v.push(x);
        }
    }
    for i in 0..n {
        v.push(h32(&format!("input{i}")));
        let mut x = [0u8; 32];
        x[..8].copy_from_slice(&(i as u64 + 2).to_le_bytes());
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}
fn honest(k: &Key, input: &[u8; 32]) -> Proof {
    let (o, (cb, ch, s)) = off::compute_vrf(k.sk, input);
    Proof { output: o.to_bytes(), cb: cb.to_bytes(), ch: ch.to_bytes(), s: s.to_bytes() }
}

/// C16: honest proofs over a key x input grid
pub fn grid(dl: Instant, nk: usize, ni: usize) -> (Stats, Vec<Found>) {
    grid_over(dl, nk, inputs(true, ni))
}
/// many keys, a handful of inputs
pub fn many_keys(dl: Instant, nk: usize) -> (Stats, Vec<Found>) {
    grid_over(dl, nk, inputs(false, 2))
}
fn grid_over(dl: Instant, nk: usize, ins: Vec<[u8; 32]>) -> (Stats, Vec<Found>) {
    let ks = keys(nk);
    let outs: Mutex<HashMap<[u8; 32], usize>> = Mutex::new(HashMap::new());
    let n = ins.len();
    let lab = |i: usize| format!("{} on input {}", ks[i / n].name, hex(&ins[i % n]));
    sweep(
        "vrf/honest proofs",
        nk * n,
        dl,
        |i, v, st| {
            let (k, x) = (&ks[i / n], &ins[i % n]);
            let a = match crate::rt::no_panic(|| honest(k, x)) {
                Ok(a) => a,
                Err(e) => {
                    v.push(viol(&["C16"], "prover-panics", format!("compute_vrf panics: {e}")));
                    return;
                }
            };
            let b = honest(k, x);
            if a.output != b.output || a.cb != b.cb || a.ch != b.ch || a.s != b.s {
                v.push(viol(&["C16"], "not-deterministic", "two computations for the same key and input differ".to_string()));
            }
            let Some((on, offv, _)) = no_panic3(&k.pk, x, &a, v) else { return };
            st.op("verify", on);
            if !on {
                v.push(viol(&["C16", "C24"], "honest-rejected-on-chain", "an honest proof is rejected by the on-chain verifier".to_string()));
            }
            if !offv {
                v.push(viol(&["C16"], "honest-rejected-off-chain", "an honest proof is rejected by the oracle's verifier".to_string()));
            }
            if on != offv {
                v.push(viol(&["C17"], "verifiers-disagree", format!("an honest proof: on chain {on}, off chain {offv}")));
            }
            if k.sk * G != k.pkp {
                v.push(viol(&["C16"], "wrong-public-key", "the public key does not belong to the secret key".to_string()));
            }
            if let Some(j) = outs.lock().unwrap().insert(a.output, i) {
                if j != i {
                    v.push(viol(&["C16"], "output-collision", format!("same output as {}", lab(j))));
                }
            }
            if C(a.output).decompress().is_none_or(|p| p == P::identity()) {
                v.push(viol(&["C16"], "bad-output", "the output is the identity or not a point".to_string()));
            }
        },
        lab,
    )
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// C16: key derivation
pub fn key_derivation(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let seen: Mutex<HashMap<[u8; 32], usize>> = Mutex::new(HashMap::new());
    let seed = |i: usize| -> [u8; 32] {
        if i < 256 {
            let mut s = h32("vrf-key-0");
            s[i / 8] ^= 1 << (i % 8);
            s
        } else if i < 512 {
            let mut s = [0u8; 32];
            s[(i - 256) / 8] ^= 1 << (i % 8);
            s
        } else {
            h32(&format!("kd{i}"))
        }
    };
    sweep(
        "vrf/key derivation",
        n.max(512),
        dl,
        |i, v, st| {
            let kp = solana_sdk::signature::Keypair::new_from_array(seed(i));
            let (sk, pk) = off::generate_vrf_keypair(&kp);
            let (sk2, pk2) = off::generate_vrf_keypair(&kp);
            st.op("derive", true);
            if sk != sk2 || pk != pk2 {
                v.push(viol(&["C16", "C19"], "key-not-deterministic", "the key derivation is not deterministic".to_string()));
            }
            if sk * G != pk {
                v.push(viol(&["C16"], "wrong-public-key", "the public key does not belong to the secret key".to_string()));
            }
            if sk == Scalar::ZERO || sk == Scalar::ONE {
                v.push(viol(&["C19"], "weak-key", "trivial secret key".to_string()));
            }
            if let Some(j) = seen.lock().unwrap().insert(sk.to_bytes(), i) {
                if j != i {
                    v.push(viol(&["C19", "C16"], "key-collision", format!("identities {i} and {j} derive the same VRF key")));
                }
            }
            // not derivable from the public identity
            let id: [u8; 32] = solana_sdk::signer::Signer::pubkey(&kp).to_bytes();
            if i < 20 {
                let pks = pk.compress().to_bytes();
                for (t, c) in public_scalars(&[("identity", id.to_vec()), ("zero", vec![0; 32]), ("pk", pks.to_vec())]) {
                    st.op("candidate", false);
                    if c * G == pk {
                        v.push(viol(&["C18", "C19"], "key-from-public", format!("the VRF secret key is {t}")));
                    }
                }
            }
        },
        |i| format!("identity seed {}", hex(&seed(i))),
    )
}

/// bounded term language of scalars computable from public byte strings
fn public_scalars(atoms: &[(&str, Vec<u8>)]) -> Vec<(String, Scalar)> {
    let mut seqs: Vec<(String, Vec<u8>)> = vec![("empty".into(), vec![])];
    for (a, x) in atoms {
        seqs.push((a.to_string(), x.clone()));
        for (b, y) in atoms {
            let mut z = x.clone();
            z.extend(y);
            seqs.push((format!("{a}|{b}"), z));
        }
    }
    let salts: [(&str, Option<&[u8]>); 7] = [
        ("none", None),
        ("nonce", Some(b"VRF-Ephem-Nonce")),
        ("challenge", Some(b"VRF-Ephem-Challenge")),
        ("h2p", Some(b"VRF-Ephem-HashToPoint")),
        ("h2s", Some(b"VRF-Ephem-HashToScalar")),
        ("secret", Some(b"VRF-Solana-SecretKey")),
        ("empty", Some(b"")),
    ];
    let mut out = vec![];
    for (l, s) in &seqs {
        for (sl, salt) in salts {
            let h = Hkdf::<Sha512>::new(salt, s);
            for info in [&b"VRF-Nonce"[..], b"VRF-Key", b""] {
                let mut okm = [0u8; 64];
                h.expand(info, &mut okm).unwrap();
                let n = format!("hkdf(salt {sl}, {l}, {})", String::from_utf8_lossy(info));
                out.push((n.clone(), sc(okm[..32].try_into().unwrap())));
                out.push((format!("{n} second half"), sc(okm[32..].try_into().unwrap())));
                out.push((format!("{n} wide"), Scalar::from_bytes_mod_order_wide(&okm)));
            }
            if let Some(p) = salt {
                out.push((format!("sha256({sl}|{l})"), sc(sha(&[p, s]))));
                let w: [u8; 64] = Sha512::digest([p, s].concat()).into();
                out.push((format!("sha512({sl}|{l})"), Scalar::from_bytes_mod_order_wide(&w)));
                out.push((format!("sha512({sl}|{l}) first half"), sc(w[..32].try_into().unwrap())));
            }
        }
        if s.len() == 32 {
            out.push((l.clone(), sc(s[..32].try_into().unwrap())));
        }
    }
    out
}

/// C17: every single-bit change of every component of an honest proof, and every byte value at byte boundaries
pub fn flips(dl: Instant, nk: usize, ni: usize, bytes: bool) -> (Stats, Vec<Found>) {
    let ks = keys(nk);
    let ins = inputs(false, ni);
    let per = 6 * 256;
    let names = ["public key", "input", "output", "first commitment", "second commitment", "response"];
    let n = ins.len();
    let extra = if bytes { 6 * 32 * 8 } else { 0 };
    let lab = |i: usize| {
        let (c, j) = (i / (per + extra), i % (per + extra));
        let what = if j < per {
            format!("{} bit {}", names[j / 256], j % 256)
        } else {
            let j = j - per;
            format!("{} byte {} replaced ({})", names[j / 256], (j % 256) / 8, j % 8)
        };
        format!("{}, input {}, {what}", ks[c / n].name, hex(&ins[c % n]))
    };
    sweep(
        "vrf/changed proofs",
        nk * n * (per + extra),
        dl,
        |i, v, st| {
            let (c, j) = (i / (per + extra), i % (per + extra));
            let (k, x) = (&ks[c / n], &ins[c % n]);
            let a = honest(k, x);
            let mut f = [k.pk, *x, a.output, a.cb, a.ch, a.s];
            if j < per {
                f[j / 256][(j % 256) / 8] ^= 1 << (j % 8);
            } else {
                let j = j - per;
                let b = &mut f[j / 256][(j % 256) / 8];
                let nv = [0u8, 255, 1, 127, 128, 0x55, 0xaa, 0x7e][j % 8];
                *b = if nv == *b { *b ^ 0x33 } else { nv };
            }
            let p = Proof { output: f[2], cb: f[3], ch: f[4], s: f[5] };
            must_reject("a changed proof", &f[0], &f[1], &p, v, st);
        },
        lab,
    )
}

/// C17: every mixture of the components of several proofs
pub fn mixtures(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let ks = keys(2);
    let ins = inputs(false, 1);
    let mut src = vec![];
    for k in &ks {
        for x in ins.iter().take(2) {
            let p = honest(k, x);
            src.push([k.pk, *x, p.output, p.cb, p.ch, p.s]);
        }
    }
    // special values
    let zero = [0u8; 32];
    src.push([G.compress().to_bytes(), [1; 32], zero, zero, zero, zero]);
    if thorough {
        src.push([zero, zero, G.compress().to_bytes(), G.compress().to_bytes(), G.compress().to_bytes(), Scalar::ONE.to_bytes()]);
    }
    let n = src.len();
    let total = n.pow(6);
    sweep(
        "vrf/mixtures",
        total,
        dl,
        |i, v, st| {
            let mut j = i;
            let mut f = [[0u8; 32]; 6];
            let mut idx = [0; 6];
            for c in 0..6 {
                idx[c] = j % n;
                f[c] = src[j % n][c];
                j /= n;
            }
            let p = Proof { output: f[2], cb: f[3], ch: f[4], s: f[5] };
            // genuine iff it is an honest proof
            let genuine = (0..4).any(|s| (0..6).all(|c| f[c] == src[s][c]));
            if genuine {
                let Some((on, offv, ind)) = no_panic3(&f[0], &f[1], &p, v) else { return };
                st.op("verify", on);
                if !(on && offv && ind) {
                    v.push(viol(&["C16"], "honest-rejected-on-chain", "an honest proof is rejected".to_string()));
                }
            } else {
                must_reject(&format!("a mixture {idx:?} of proofs"), &f[0], &f[1], &p, v, st);
            }
        },
        |i| format!("mixture {i}"),
    )
}

/// C17: proofs built with knowledge of the secret key (and of the discrete logarithm of the hashed input) for a false output.
/// Every component is chosen from a small set of group elements, the response from every linear form, and the challenge
/// is computed over every subset of the transcript; when a component is left out of the transcript it is also solved
/// for after the challenge is known.
pub fn forgeries(dl: Instant, nk: usize, ni: usize) -> (Stats, Vec<Found>) {
    let ks = keys(nk);
    let ins = inputs(false, ni);
    let n = ins.len();
    let lab = |i: usize| format!("{}, input {}, transcript without {:05b}", ks[i / SUB / n].name, hex(&ins[i / SUB % n]), i % SUB);
    sweep(
        "vrf/forgeries",
        nk * n * SUB,
        dl,
        |i, v, st| {
            let (k, x, omit) = (&ks[i / SUB / n], &ins[i / SUB % n], i % SUB);
            for (what, pk, p) in forged(k, x, omit) {
                must_reject(&what, &pk, x, &p, v, st);
            }
        },
        lab,
    )
}
const SUB: usize = 32;
/// every forgery for one key and input whose challenge leaves out the given parts of the transcript
fn forged(k: &Key, x: &[u8; 32], omit: usize) -> Vec<(String, [u8; 32], Proof)> {
    let mut all = vec![];
    let e = dlog(x);
    let h = e * G;
    let (k1, k2) = (sc(h32("nonce-1")), sc(h32("nonce-2")));
    let chal = |out: &P, cb: &P, ch: &P, pk: &P| -> Scalar {
        let f = [out, cb, ch, pk].map(|p| p.compress().to_bytes());
        let mut parts: Vec<&[u8]> = vec![];
        for (b, y) in f.iter().enumerate() {
            if omit >> b & 1 == 0 {
                parts.push(y);
            }
        }
        if omit >> 4 & 1 == 0 {
            parts.push(x);
        }
        challenge(&parts)
    };
    let one = Scalar::ONE;
    // exponents of false outputs with respect to h
    let xs = [("0", Scalar::ZERO), ("1", one), ("sk+1", k.sk + one), ("-sk", -k.sk), ("2sk", k.sk + k.sk), ("k", k1)];
    let bytes = |p: &P| p.compress().to_bytes();
    let mut try_ = |what: String, pk: &P, out: P, cb: P, ch: P, s: Scalar| {
        all.push((what, bytes(pk), Proof { output: bytes(&out), cb: bytes(&cb), ch: bytes(&ch), s: s.to_bytes() }));
    };
    let truth = k.sk * h;
    for (xl, xv) in xs {
        let out = xv * h;
        if out == truth {
            continue;
        }
        if omit == 0 || omit.count_ones() == 1 {
            for (nb, b) in [k1, k2, Scalar::ZERO].into_iter().enumerate() {
                for (nh, hh) in [k1, k2, Scalar::ZERO].into_iter().enumerate() {
                    let (cb, ch) = (b * G, hh * h);
                    let c = chal(&out, &cb, &ch, &k.pkp);
                    for s in [b + c * k.sk, b + c * xv, hh + c * k.sk, hh + c * xv] {
                        try_(format!("output {xl}·h, commitments {nb},{nh}, linear response"), &k.pkp, out, cb, ch, s);
                    }
                }
            }
        }
        // second commitment solved last
        if omit & 4 != 0 {
            let cb = k1 * G;
            for dummy in [P::identity(), k1 * h] {
                let c = chal(&out, &cb, &dummy, &k.pkp);
                let s = k1 + c * k.sk;
                try_(format!("output {xl}·h with the second commitment solved from the challenge"), &k.pkp, out, cb, s * h - c * out, s);
            }
        }
        // first commitment solved last
        if omit & 2 != 0 {
            let ch = k1 * h;
            let c = chal(&out, &P::identity(), &ch, &k.pkp);
            let s = k1 + c * xv;
            try_(format!("output {xl}·h with the first commitment solved from the challenge"), &k.pkp, out, s * G - c * k.pkp, ch, s);
        }
        // key solved last
        if omit & 8 != 0 {
            let (cb, ch) = (k2 * G, k1 * h);
            let c = chal(&out, &cb, &ch, &P::identity());
            let s = k1 + c * xv;
            let pk = c.invert() * (s * G - cb);
            try_(format!("output {xl}·h with the key solved from the challenge"), &pk, out, cb, ch, s);
        }
    }
    // output solved last
    if omit & 1 != 0 {
        for b in [k2, Scalar::ZERO] {
            let (cb, ch) = (k1 * G, b * h);
            let c = chal(&P::identity(), &cb, &ch, &k.pkp);
            let s = k1 + c * k.sk;
            let out = c.invert() * (s * h - ch);
            try_("an output solved from the challenge".into(), &k.pkp, out, cb, ch, s);
        }
    }
    // nothing but commitments free, secret key unknown: both solved
    if omit & 6 == 6 {
        let s = k1;
        let out = k2 * h;
        let c = chal(&out, &P::identity(), &P::identity(), &k.pkp);
        try_("both commitments solved from the challenge".into(), &k.pkp, out, s * G - c * k.pkp, s * h - c * out, s);
    }
    if omit == 0 {
        // algebraic shifts of the honest proof
        let a = honest(k, x);
        let d = |b: [u8; 32]| C(b).decompress().unwrap();
        let (o, cb, ch) = (d(a.output), d(a.cb), d(a.ch));
        let s = Scalar::from_canonical_bytes(a.s).unwrap();
        let pts = [P::identity(), G, -G, h, -h, k.pkp, o, cb, ch];
        let sh = [Scalar::ZERO, one, -one, e, k.sk, s];
        for (pi, p) in pts.iter().enumerate() {
            for (qi, q) in pts.iter().enumerate() {
                for (si, t) in sh.iter().enumerate() {
                    for w in 0..3 {
                        let (mut o2, mut cb2, mut ch2) = (o, cb, ch);
                        match w {
                            0 => (o2, cb2) = (o + p, cb + q),
                            1 => (o2, ch2) = (o + p, ch + q),
                            _ => (cb2, ch2) = (cb + p, ch + q),
                        }
                        if o2 == o && cb2 == cb && ch2 == ch && *t == Scalar::ZERO {
                            continue;
                        }
                        try_(format!("an honest proof shifted ({w}: {pi},{qi},{si})"), &k.pkp, o2, cb2, ch2, s + t);
                    }
                }
            }
        }
        for p in pts {
            try_("an honest proof with another output".into(), &k.pkp, if p == o { -o } else { p }, cb, ch, s);
        }
        // non-canonical response: s + l
        let l: [u8; 32] = {
            let mut m = (-Scalar::ONE).to_bytes();
            m[0] += 1;
            m
        };
        let mut t = a.clone();
        let mut carry = 0u16;
        for i in 0..32 {
            let y = t.s[i] as u16 + l[i] as u16 + carry;
            t.s[i] = y as u8;
            carry = y >> 8;
        }
        all.push(("a response that is not reduced".into(), k.pk, t));
    }
    all
}

/// proofs in which at least one of the key, the output and the two commitments is not the encoding of a point, made so
/// that whatever equation does not involve it holds, or would hold if it were taken for the identity
fn invalid_encodings(k: &Key, x: &[u8; 32]) -> Vec<([u8; 32], Proof)> {
    let h = dlog(x) * G;
    let (k1, xv) = (sc(h32("nonce-1")), sc(h32("false-output")));
    let bytes = |p: P| p.compress().to_bytes();
    let mut p25519 = [255u8; 32];
    (p25519[0], p25519[31]) = (0xed, 0x7f);
    let mut bad: Vec<[u8; 32]> = vec![[255; 32], [1; 32], p25519];
    let truth = bytes(k.sk * h);
    let mut odd = truth;
    odd[0] ^= 1;
    bad.push(odd);
    let mut top = truth;
    top[31] |= 0x80;
    bad.push(top);
    let mut n = 0u32;
    bad.push(loop {
        let c = h32(&format!("not-a-point-{n}"));
        if C(c).decompress().is_none() {
            break c;
        }
        n += 1;
    });
    bad.retain(|b| C(*b).decompress().is_none());
    let id = bytes(P::identity());
    let good = [vec![k.pk, id], vec![truth, bytes(xv * h), id], vec![bytes(k1 * G), id], vec![bytes(k1 * h), id]];
    let mut all = vec![];
    for b in &bad {
        for mask in 1..16 {
            let f: Vec<Vec<[u8; 32]>> = (0..4).map(|i| if mask >> i & 1 == 1 { vec![*b] } else { good[i].clone() }).collect();
            for pk in &f[0] {
                for output in &f[1] {
                    for cb in &f[2] {
                        for ch in &f[3] {
                            let c = challenge(&[output, cb, ch, pk, x]);
                            for s in [k1, k1 + c * k.sk, k1 + c * xv, c * k.sk, c * xv] {
                                all.push((*pk, Proof { output: *output, cb: *cb, ch: *ch, s: s.to_bytes() }));
                            }
                        }
                    }
                }
            }
        }
    }
    all
}
/// C17: invalid encodings
pub fn encodings(dl: Instant, nk: usize, ni: usize) -> (Stats, Vec<Found>) {
    let ks = keys(nk);
    let ins = inputs(false, ni);
    let n = ins.len();
    sweep(
        "vrf/invalid encodings",
        nk * n * 8,
        dl,
        |j, v, st| {
            let i = j / 8;
            let (k, x) = (&ks[i / n], &ins[i % n]);
            for (pk, p) in invalid_encodings(k, x).into_iter().skip(j % 8).step_by(8) {
                must_reject("a proof with an invalid encoding of a point", &pk, x, &p, v, st);
            }
        },
        |j| format!("{}, input {}, part {}", ks[j / 8 / n].name, hex(&ins[j / 8 % n]), j % 8),
    )
}

/// C03, C17: the same forgeries, and every mixture of genuine and special field values, handed to the program
pub fn through_program(dl: Instant) -> (Stats, Vec<Found>) {
    use crate::scen::*;
    use crate::spec::check_tx;
    use crate::world::*;
    let w = super::subst::rich();
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut e = vec![];
    let items = spec::decode_queue(w.data(&q), &mut e).unwrap().items;
    let key = Key { name: "oracle-a".into(), sk: o.sk, pkp: o.sk * G, pk: o.pk };
    let honest: Vec<Proof> = items.iter().map(|i| honest(&key, &i.id)).collect();
    let l: [u8; 32] = {
        let mut m = (-Scalar::ONE).to_bytes();
        m[0] += 1;
        m
    };
    let g = G.compress().to_bytes();
    // candidates for the three points and the response
    let vals = |n: usize| -> (Vec<[u8; 32]>, Vec<[u8; 32]>) {
        let (h, y) = (&honest[n], &honest[(n + 1) % honest.len()]);
        (vec![h.output, h.cb, h.ch, [0; 32], g, key.pk, y.output, y.ch], vec![h.s, [0; 32], Scalar::ONE.to_bytes(), l, [255; 32], y.s])
    };
    let mix = 8 * 8 * 8 * 6;
    let per = mix + SUB + 1;
    sweep(
        "vrf/forgeries through the program",
        items.len() * 2 * per,
        dl,
        |i, v, st| {
            let (n, other, j) = (i / per / 2, i / per % 2, i % per);
            let it = &items[n];
            let ps = if j < mix {
                let (pts, ss) = vals(n);
                vec![Proof { output: pts[j % 8], cb: pts[j / 8 % 8], ch: pts[j / 64 % 8], s: ss[j / 512] }]
            } else if j == mix + SUB {
                invalid_encodings(&key, &it.id).into_iter().filter(|f| f.0 == key.pk).map(|f| f.1).collect()
            } else {
                forged(&key, &it.id, j - mix).into_iter().filter(|f| f.1 == key.pk).map(|f| f.2).collect()
            };
            for p in ps {
                let mut w = w.clone();
                // for the pending request, and claimed for another one
                let id = if other == 1 { items[(n + 1) % items.len()].id } else { it.id };
                let ix = ix_provide(&o.id, &q, &it.prog, &id, &p, &rest_of(it));
                let r = check_tx(&mut w, &[ix], &[o.id], v);
                st.op("provide", r.ok);
                st.states += r.ok as u64;
            }
        },
        |i| format!("request {}, variant {}, proof {}", i / per / 2, i / per % 2, i % per),
    )
}

/// C19: nonces of a grid of proofs, recovered with the secret key, must be unrelated, full-size and secret
pub fn nonces(dl: Instant, nk: usize, ni: usize) -> (Stats, Vec<Found>) {
    let mut ks = keys(nk);
    // keys that differ in a single bit
    for b in 0..252 {
        let mut s = ks[0].sk.to_bytes();
        s[b / 8] ^= 1 << (b % 8);
        if let Some(sk) = Option::<Scalar>::from(Scalar::from_canonical_bytes(s)) {
            let pkp = sk * G;
            ks.push(Key { name: format!("vrf-key-0 with bit {b} flipped"), sk, pkp, pk: pkp.compress().to_bytes() });
        }
    }
    let all = inputs(true, ni);
    let few = inputs(false, 2);
    let mut cases: Vec<(usize, [u8; 32])> = vec![];
    for i in 0..ks.len() {
        for x in if i < nk { &all } else { &few } {
            cases.push((i, *x));
        }
    }
    let got: Vec<Mutex<Option<(Scalar, Scalar, Proof)>>> = cases.iter().map(|_| Mutex::new(None)).collect();
    let lab = |i: usize| format!("{} on input {}", ks[cases[i].0].name, hex(&cases[i].1));
    let (mut st, mut fs) = sweep(
        "vrf/nonces",
        cases.len(),
        dl,
        |i, v, st| {
            let (k, x) = (&ks[cases[i].0], &cases[i].1);
            let a = honest(k, x);
            let s = Scalar::from_canonical_bytes(a.s).unwrap();
            let c = challenge(&[&a.output, &a.cb, &a.ch, &k.pk, x]);
            let nonce = s - c * k.sk;
            st.op("prove", true);
            if nonce * G != C(a.cb).decompress().unwrap_or(P::identity()) {
                v.push(viol(&["C16", "C17"], "transcript", "the challenge is not computed over the documented transcript".to_string()));
                return;
            }
            let pubs: Vec<(&str, Vec<u8>)> =
                vec![("pk", k.pk.to_vec()), ("input", x.to_vec()), ("output", a.output.to_vec()), ("zero", vec![0; 32]), ("h", (dlog(x) * G).compress().to_bytes().to_vec())];
            if cases[i].0 < 3 && i % 10 == 0 {
                for (t, cand) in public_scalars(&pubs) {
                    st.op("candidate", false);
                    if cand == nonce {
                        v.push(viol(&["C19", "C18"], "nonce-public", format!("the nonce is {t}")));
                    }
                }
            }
            for (t, cand) in [("0", Scalar::ZERO), ("1", Scalar::ONE), ("sk", k.sk), ("-sk", -k.sk), ("e", dlog(x)), ("c", c), ("sk*e", k.sk * dlog(x)), ("c*sk", c * k.sk), ("-c*sk", -(c * k.sk)), ("input", sc(*x)), ("sk+input", k.sk + sc(*x)), ("sk*input", k.sk * sc(*x)), ("s", s), ("sk*c^-1", k.sk * c.invert())] {
                st.op("candidate", false);
                if cand == nonce {
                    v.push(viol(&["C19"], "nonce-related", format!("the nonce is {t}")));
                }
            }
            *got[i].lock().unwrap() = Some((nonce, c, a));
        },
        lab,
    );
    let got: Vec<Option<(Scalar, Scalar, Proof)>> = got.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let mut push = |kind: &str, msg: String| {
        if fs.len() < 60 {
            fs.push(Found { viol: viol(&["C19"], kind, msg), scenario: "vrf/nonces".into(), path: vec![] });
        }
    };
    // pairwise relations, by hashing: equal, opposite, shifted by a small constant, shifted by the difference of the keys / inputs
    let mut seen: HashMap<[u8; 32], (usize, String)> = HashMap::new();
    let es: Vec<Scalar> = cases.iter().map(|c| dlog(&c.1)).collect();
    for (i, g) in got.iter().enumerate() {
        let Some((k, c, _)) = g else { continue };
        let key = &ks[cases[i].0];
        let xin = sc(cases[i].1);
        let mut forms: Vec<(String, Scalar)> = vec![("k".into(), *k), ("-k".into(), -*k)];
        for d in 1..=4u64 {
            forms.push((format!("k+{d}"), k + Scalar::from(d)));
        }
        forms.push(("k-sk".into(), k - key.sk));
        forms.push(("k-input".into(), k - xin));
        forms.push(("k-e".into(), k - es[i]));
        forms.push(("k/e".into(), k * es[i].invert()));
        forms.push(("k/sk".into(), k * key.sk.invert()));
        if xin != Scalar::ZERO {
            forms.push(("k/input".into(), k * xin.invert()));
        }
        forms.push(("k/c".into(), k * c.invert()));
        for (f, val) in forms {
            st.transitions += 1;
            let mut kb = val.to_bytes();
            // relations are only compared within the same form, or with k itself
            if !(f == "k" || f.starts_with("k+") || f == "-k") {
                let hsh = sha(&[f.as_bytes(), &kb]);
                kb = hsh;
            }
            if let Some((j, g)) = seen.get(&kb) {
                if *j != i {
                    push("nonces-related", format!("{f} of [{}] equals {g} of [{}]", lab(i), lab(*j)));
                }
            } else {
                seen.insert(kb, (i, f));
            }
        }
    }
    // size and spread: every bit position takes both values with plausible frequency
    let ns: Vec<[u8; 32]> = got.iter().flatten().map(|g| g.0.to_bytes()).collect();
    let n = ns.len() as f64;
    for b in 0..252 {
        let ones = ns.iter().filter(|x| x[b / 8] >> (b % 8) & 1 == 1).count() as f64;
        if (ones - n / 2.0).abs() > 6.0 * (n / 4.0).sqrt() + 1.0 {
            push("nonce-biased", format!("bit {b} of the nonce is set in {ones} of {n} proofs"));
        }
    }
    st.states += ns.len() as u64;
    (st, fs)
}

/// C18: what can be computed from public data about the output for an input that has not been answered.
/// Terms: (product of up to three public scalars or inverses) x public point, and sums of two basic terms.
pub fn adversary(dl: Instant, nk: usize, ni: usize) -> (Stats, Vec<Found>) {
    let ks = keys(nk);
    let ins = inputs(false, ni);
    let n = ins.len();
    sweep(
        "vrf/public derivation",
        nk * n,
        dl,
        |i, v, st| {
            let (k, x) = (&ks[i / n], &ins[i % n]);
            // an earlier, published proof of the same key, and one of another key for the same input
            let x1 = h32("earlier");
            let p1 = honest(k, &x1);
            let other = &ks[(i / n + 1) % nk];
            let p2 = honest(other, x);
            let target = C(honest(k, x).output).decompress().unwrap();
            let d = |b: [u8; 32]| C(b).decompress().unwrap();
            let c1 = challenge(&[&p1.output, &p1.cb, &p1.ch, &k.pk, &x1]);
            let s1 = Scalar::from_canonical_bytes(p1.s).unwrap();
            let s2 = Scalar::from_canonical_bytes(p2.s).unwrap();
            let (e, e1) = (dlog(x), dlog(&x1));
            let points = [
                ("G", G),
                ("pk", k.pkp),
                ("out1", d(p1.output)),
                ("cb1", d(p1.cb)),
                ("ch1", d(p1.ch)),
                ("other.pk", other.pkp),
                ("other.out", d(p2.output)),
                ("other.cb", d(p2.cb)),
            ];
            let scalars = [("e", e), ("e1", e1), ("c1", c1), ("s1", s1), ("s2", s2), ("input", sc(*x)), ("input1", sc(x1)), ("2", Scalar::from(2u8))];
            let mut sc1: Vec<(String, Scalar)> = vec![("1".into(), Scalar::ONE), ("-1".into(), -Scalar::ONE)];
            for (l, s) in scalars {
                if s == Scalar::ZERO {
                    continue;
                }
                sc1.push((l.into(), s));
                sc1.push((format!("{l}^-1"), s.invert()));
            }
            let mut terms: Vec<(String, P)> = vec![];
            let mut uniq: BTreeMap<[u8; 32], String> = BTreeMap::new();
            for (a, (la, sa)) in sc1.iter().enumerate() {
                for (lb, sb) in sc1.iter().skip(a) {
                    uniq.entry((sa * sb).to_bytes()).or_insert_with(|| {
                        [la.as_str(), lb.as_str()].iter().filter(|x| **x != "1").copied().collect::<Vec<_>>().join("*")
                    });
                }
            }
            for (sb, l) in &uniq {
                let s = Scalar::from_canonical_bytes(*sb).unwrap();
                for (pl, p) in points {
                    terms.push((if l.is_empty() { pl.to_string() } else { format!("{l}*{pl}") }, s * p));
                }
            }
            // single terms and sums of two
            let table: HashMap<[u8; 32], usize> = terms.iter().enumerate().map(|(i, t)| (t.1.compress().to_bytes(), i)).collect();
            for (l, p) in &terms {
                st.op("candidate", false);
                if *p == target {
                    v.push(viol(&["C18"], "output-derivable", format!("the output is [{l}]")));
                }
            }
            let small: Vec<&(String, P)> = terms.iter().filter(|t| t.0.matches('*').count() <= 1).collect();
            let direct: Vec<bool> = terms.iter().map(|t| t.1 == target).collect();
            if direct.iter().all(|b| !b) {
                for t in small {
                    st.op("candidate", false);
                    if let Some(j) = table.get(&(target - t.1).compress().to_bytes()) {
                        v.push(viol(&["C18"], "output-derivable", format!("the output is [{} + {}]", t.0, terms[*j].0)));
                    }
                }
            }
            // secret key from one proof with a guessable nonce
            let pubs: Vec<(&str, Vec<u8>)> = vec![("pk", k.pk.to_vec()), ("input", x1.to_vec()), ("output", p1.output.to_vec()), ("zero", vec![0; 32])];
            for (l, cand) in public_scalars(&pubs) {
                st.op("candidate", false);
                if cand * G == points[3].1 {
                    let sk = (s1 - cand) * c1.invert();
                    if sk * G == k.pkp {
                        v.push(viol(&["C18", "C19"], "key-derivable", format!("the secret key follows from one proof, whose nonce is {l}")));
                    }
                }
            }
        },
        |i| format!("{} on input {}", ks[i / n].name, hex(&ins[i % n])),
    )
}
