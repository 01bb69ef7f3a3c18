//! The client SDK: request builders and addresses of every feature set (dumped by sdkmc), `#[vrf]` consumers, number helpers.
#[path = "../../../sdkmc/src/grid.rs"]
pub mod grid;
use crate::engine::*;
use crate::rt::*;
use crate::spec::{self, check_tx};
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk::rnd;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::time::Instant;

pub const SETS: [&str; 4] = ["default", "backward-compat", "anchor", "anchor-compat"];
fn dump(what: &str, set: &str) -> Option<String> {
    let p = crate::report::root().join(format!("target/dump-{set}.{what}"));
    match std::fs::read_to_string(&p) {
        Ok(s) => Some(s),
        Err(e) => {
            eprintln!("{}: {e}", p.display());
            std::process::exit(2);
        }
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key(s: &str) -> Pubkey {
    Pubkey::new_from_array(unhex(s).try_into().unwrap())
}
fn parse_ix(f: &[&str]) -> Instruction {
    let meta = |m: &str| {
        let (k, fl) = m.split_once(':').unwrap();
        AccountMeta { pubkey: key(k), is_signer: fl.as_bytes()[0] == b'1', is_writable: fl.as_bytes()[1] == b'1' }
    };
    Instruction {
        program_id: key(f[0]),
        accounts: if f[1].is_empty() { vec![] } else { f[1].split(',').map(meta).collect() },
        data: unhex(f.get(2).unwrap_or(&"")),
    }
}

// ------------------------------------------------------------------------------------------------ C20
fn req_of(p: &grid::P) -> Req {
    let mut r = Req::simple(Pubkey::new_from_array(p.prog), 0);
    r.seed = p.seed;
    r.disc = p.disc.clone();
    r.metas = p.metas.clone().unwrap_or_default().iter().map(|m| (Pubkey::new_from_array(m.0), m.1, m.2)).collect();
    r.args = p.args.clone().unwrap_or_default();
    r.high = p.high;
    r
}
fn describe(p: &grid::P) -> String {
    format!(
        "{} priority, {} discriminator byte(s), accounts {}, args {}, seed {:02x}.., program {:02x}..",
        if p.high { "high" } else { "regular" },
        p.disc.len(),
        p.metas.as_ref().map_or("absent".into(), |m| m.len().to_string()),
        p.args.as_ref().map_or("absent".into(), |m| m.len().to_string()),
        p.seed[0],
        p.prog[0]
    )
}
pub fn requests(dl: Instant) -> Vec<(String, (Stats, Vec<Found>))> {
    let g = grid::grid();
    let mut w = with_oracles(&["oracle-a"]);
    add_queue(&mut w, "oracle-a", 0, 9000);
    add_queue(&mut w, "oracle-a", 1, 9000);
    let oid = oracle("oracle-a").id;
    assert!(grid::payers() == [payer().to_bytes(), mallory().to_bytes()], "grid keys");
    assert!(grid::queues() == [queue(&oid, 0).to_bytes(), queue(&oid, 1).to_bytes()], "grid keys");
    assert!(grid::progs() == [prog_x().to_bytes(), prog_y().to_bytes()], "grid keys");
    let dumps: Vec<String> = SETS.iter().filter_map(|s| dump("requests", s)).collect();
    let lines: Vec<Vec<&str>> = dumps.iter().map(|d| d.lines().collect()).collect();
    let mut out = vec![];
    // every line of every feature set against the first one
    let n = lines[0].len();
    let cmp = sweep(
        "sdk/feature sets agree",
        n * SETS.len(),
        dl,
        |i, v, st| {
            let (s, l) = (i / n, i % n);
            let same = lines[s].get(l) == lines[0].get(l);
            st.op("compare", same);
            if !same {
                v.push(viol(&["C20"], "feature-sets-differ", format!("{} builds something else than default: {}", SETS[s], short(lines[s].get(l).unwrap_or(&"nothing")))));
            }
            let f: Vec<&str> = lines[s][l].split(' ').collect();
            if f[0] == "ix" {
                let p = &g[f[1].parse::<usize>().unwrap()];
                if f[2] != "1" {
                    v.push(viol(&["C20"], "does-not-read-back", format!("{}: the SDK's types do not read back what they wrote for {}", SETS[s], describe(p))));
                }
            }
            if f[0] == "conv" {
                let c = f[1].parse::<u8>().unwrap();
                let want = format!("{}:{}{}", hex(&[7 + c; 32]), c & 1, c >> 1 & 1);
                if f[2] != want || f[3] != want {
                    v.push(viol(&["C20"], "conversion", format!("{}: account meta {want} becomes {} and {}", SETS[s], f[2], f[3])));
                }
            }
            if f[0] == "convix" && (f[2..5] != f[5..8]) {
                v.push(viol(&["C20"], "conversion", format!("{}: instruction changes when converted: {}", SETS[s], short(lines[s][l]))));
            }
        },
        |i| format!("{} line {}", SETS[i / n], short(lines[0].get(i % n).unwrap_or(&""))),
    );
    out.push(("agreement".to_string(), cmp));
    let ixs: Vec<Instruction> = lines[0].iter().filter(|l| l.starts_with("ix ")).map(|l| parse_ix(&l.split(' ').collect::<Vec<_>>()[3..])).collect();
    let missing = g.len() - ixs.len();
    assert!(missing == 0, "the dump does not cover the grid");
    let run = sweep(
        "sdk/requests executed",
        g.len(),
        dl,
        |i, v, st| {
            let (p, ix) = (&g[i], &ixs[i]);
            let r = req_of(p);
            let d = describe(p);
            // decoded by the program's own codec
            let tag = if p.high { 3 } else { 8 };
            let body = ix.data.get(8..).and_then(|b| <api::RequestRandomness as borsh::BorshDeserialize>::try_from_slice(b).ok());
            match body {
                None => v.push(viol(&["C20"], "undecodable", format!("the program cannot decode {d}"))),
                Some(b) => {
                    let same = ix.data[0] == tag
                        && b.caller_seed == p.seed
                        && b.callback_program_id.to_bytes() == p.prog
                        && b.callback_discriminator == p.disc
                        && b.callback_args == r.args
                        && b.callback_accounts_metas.iter().map(|m| (Pubkey::from(m.pubkey), m.is_signer, m.is_writable)).collect::<Vec<_>>() == r.metas;
                    if !same {
                        v.push(viol(&["C20"], "decoded-differently", format!("the program decodes another request than {d}")));
                    }
                }
            }
            // executed: accepted exactly within the limits, charged and stored as asked
            let q = Pubkey::new_from_array(p.queue);
            let pay = Pubkey::new_from_array(p.payer);
            let mut w2 = w.clone();
            let mut other = vec![];
            let out = check_tx(&mut w2, &[forward(Pubkey::new_from_array(p.prog), ix)], &[pay], &mut other);
            let fits = p.disc.len() <= 8 && r.metas.len() <= 20 && r.args.len() <= 512;
            st.op("request", out.ok);
            if out.ok != fits {
                v.push(viol(&["C20"], "acceptance", format!("the program {} {d} ({:?})", if out.ok { "accepts" } else { "rejects" }, out.err)));
            }
            if out.ok {
                let mut errs = vec![];
                let items = spec::decode_queue(w2.data(&q), &mut errs).map(|x| x.items).unwrap_or_default();
                let good = items.len() == 1
                    && items[0].prog == r.prog
                    && items[0].disc == r.disc
                    && items[0].args == r.args
                    && items[0].high == p.high
                    && items[0].metas == r.metas.iter().map(|m| (m.0, m.2)).collect::<Vec<_>>();
                if !good {
                    v.push(viol(&["C20"], "stored-differently", format!("the program stores another request than {d}: {items:?}")));
                }
                let fee = if p.high { api::VRF_HIGH_PRIORITY_LAMPORTS_COST } else { api::VRF_LAMPORTS_COST };
                if w.lamports(&pay) - w2.lamports(&pay) != fee {
                    v.push(viol(&["C20"], "wrong-price", format!("{d} costs {}", w.lamports(&pay) - w2.lamports(&pay))));
                }
            }
        },
        |i| describe(&g[i]),
    );
    out.push(("execution".to_string(), run));
    // the account list, exactly
    let lists = sweep(
        "sdk/account lists",
        g.len(),
        dl,
        |i, v, st| {
            let (p, ix) = (&g[i], &ixs[i]);
            let want = ix_request(&Pubkey::new_from_array(p.payer), &Pubkey::new_from_array(p.queue), &req_of(p));
            let ok = ix.program_id == want.program_id && ix.accounts == want.accounts;
            st.op("compare", ok);
            if !ok {
                v.push(viol(&["C20"], "account-list", format!("accounts {:?} for {}", ix.accounts, describe(p))));
            }
        },
        |i| describe(&g[i]),
    );
    out.push(("account lists".to_string(), lists));
    out
}
fn short(s: &str) -> String {
    s.chars().take(160).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------------------------------------------ C31
/// what a `#[vrf]` consumer must accept when one of its accounts is replaced
fn must_accept(what: &str) -> Option<bool> {
    if what == "as-published" {
        return Some(true);
    }
    if what.starts_with("only-") {
        return Some(false);
    }
    if let Some((who, by)) = what.split_once(":=") {
        // payer and queue are the author's own fields; the others are fixed addresses
        return match who {
            "payer" | "oracle_queue" => None,
            _ => Some(who == by),
        };
    }
    match what {
        "vrf_program:executable-flipped" | "system_program:executable-flipped" | "payer:signer-flipped" => Some(false),
        _ => None,
    }
}
pub fn consumers(dl: Instant) -> (Stats, Vec<Found>) {
    let sets = ["anchor", "anchor-compat"];
    let dumps: Vec<String> = sets.iter().filter_map(|s| dump("consumer", s)).collect();
    let mut cases: Vec<(usize, Vec<&str>)> = vec![];
    for (s, d) in dumps.iter().enumerate() {
        let mut cur: Vec<&str> = vec![];
        for l in d.lines() {
            if l.starts_with("try ") {
                cases.push((s, vec![l]));
            } else if l == "end" {
                cases.push((s, std::mem::take(&mut cur)));
            } else if !l.starts_with("self ") {
                cur.push(l);
            }
        }
    }
    let me = key(dumps[0].lines().next().unwrap().split(' ').nth(1).unwrap());
    let ident = pda(&[b"identity"], &me);
    let n = cases.len();
    let mut x = sweep(
        "sdk/#[vrf] consumers",
        n,
        dl,
        |i, v, st| {
            let (s, c) = (&cases[i].0, &cases[i].1);
            let f: Vec<&str> = c[0].split(' ').collect();
            let who = format!("{} consumer {}", sets[*s], f[1]);
            if f[0] == "try" {
                let ok = f[3] == "1";
                st.op("validate accounts", ok);
                if must_accept(f[2]).is_some_and(|w| w != ok) {
                    v.push(viol(&["C31"], "consumer-accounts", format!("{who} {} {}", if ok { "accepts" } else { "rejects" }, f[2])));
                }
                return;
            }
            st.op("invoke", f[4] == "1");
            if f[4] != "1" || f[5] != "1" {
                v.push(viol(&["C31"], "consumer-cpi", format!("{who}: {} CPI(s), succeeded={}", f[5], f[4])));
                return;
            }
            let get = |k: &str| c.iter().find_map(|l| l.strip_prefix(k)).unwrap_or("");
            if get("want ") != get("sent ") {
                v.push(viol(&["C31"], "consumer-cpi", format!("{who} invokes another instruction than it was given: {}", short(get("sent ")))));
            }
            let ix = parse_ix(&get("sent ").split(' ').collect::<Vec<_>>());
            let infos: Vec<(Pubkey, bool, bool)> = get("infos ")
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|m| {
                    let (k, f) = m.split_once(':').unwrap();
                    (key(k), f.as_bytes()[0] == b'1', f.as_bytes()[1] == b'1')
                })
                .collect();
            let signs: Vec<Pubkey> = get("seeds ").split(',').filter(|x| !x.is_empty() && *x != "invalid").map(key).collect();
            if signs.len() != 1 || signs[0] != ident || get("seeds ").contains("invalid") {
                v.push(viol(&["C31"], "consumer-cpi", format!("{who} does not sign as exactly its identity: {signs:?}")));
            }
            for m in &ix.accounts {
                let info = infos.iter().find(|x| x.0 == m.pubkey);
                let program = m.pubkey == sys_id();
                match info {
                    None if !program => v.push(viol(&["C31"], "consumer-cpi", format!("{who} does not pass account {}", m.pubkey))),
                    Some(x) => {
                        if m.is_signer && !x.1 && !signs.contains(&m.pubkey) {
                            v.push(viol(&["C31"], "consumer-cpi", format!("{who}: no signature of {}", m.pubkey)));
                        }
                        if m.is_writable && !x.2 {
                            v.push(viol(&["C31"], "consumer-cpi", format!("{who}: {} is not writable", m.pubkey)));
                        }
                    }
                    _ => {}
                }
            }
        },
        |i| format!("{} {}", sets[cases[i].0], short(cases[i].1[0])),
    );
    x.0.samples.push(format!("{} cases, consumer identity {ident}", n));
    x
}

// ------------------------------------------------------------------------------------------------ C29
/// address derivation written from its definition: the first bump, from 255 down, that gives a point off the curve
fn derive(seeds: &[&[u8]], prog: &[u8; 32]) -> ([u8; 32], u8) {
    use sha2::{Digest, Sha256};
    for bump in (0..=255u8).rev() {
        let mut h = Sha256::new();
        for s in seeds {
            h.update(s);
        }
        h.update([bump]);
        h.update(prog);
        h.update(b"ProgramDerivedAddress");
        let k: [u8; 32] = h.finalize().into();
        if curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_none() {
            return (k, bump);
        }
    }
    unreachable!()
}
pub fn addresses(dl: Instant) -> (Stats, Vec<Found>) {
    let b58 = |s: &str| s.parse::<Pubkey>().unwrap().to_bytes().to_vec();
    // the published addresses
    let vrf = b58("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
    let dlp = b58("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
    let (vrf_a, dlp_a): ([u8; 32], [u8; 32]) = (vrf.clone().try_into().unwrap(), dlp.clone().try_into().unwrap());
    // name -> (what a crate publishes, what it must be)
    let mut t: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let ident = derive(&[b"identity"], &vrf_a);
    want.insert("id()".into(), vrf.clone());
    want.insert("VRF_PROGRAM_ID".into(), vrf.clone());
    want.insert("VrfProgram::id()".into(), vrf.clone());
    want.insert("VRF_PROGRAM_IDENTITY".into(), ident.0.to_vec());
    want.insert("IDENTITY".into(), b"identity".to_vec());
    want.insert("DEFAULT_QUEUE".into(), b58("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh"));
    want.insert("DEFAULT_EPHEMERAL_QUEUE".into(), b58("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc"));
    want.insert("slot_hashes::ID".into(), solana_sdk_ids::sysvar::slot_hashes::ID.to_bytes().to_vec());
    want.insert("system_program::ID".into(), vec![0; 32]);
    let ks = grid::keys();
    // what the partner program's own helpers say, and the definition
    use ephemeral_rollups_sdk::pda as ext;
    let mut partner: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    let mut both = |n: String, theirs: Pubkey, def: ([u8; 32], u8)| {
        want.insert(n.clone(), def.0.to_vec());
        partner.push((format!("partner {n}"), theirs.to_bytes().to_vec(), def.0.to_vec()));
    };
    both("fees_vault_pda".into(), ext::fees_vault_pda(), derive(&[b"fees-vault"], &dlp_a));
    for (i, k) in ks.iter().enumerate() {
        let p = Pubkey::new_from_array(*k);
        both(format!("delegation_record {i}"), ext::delegation_record_pda_from_delegated_account(&p), derive(&[b"delegation", k], &dlp_a));
        both(format!("delegation_metadata {i}"), ext::delegation_metadata_pda_from_delegated_account(&p), derive(&[b"delegation-metadata", k], &dlp_a));
        both(format!("commit_state {i}"), ext::commit_state_pda_from_delegated_account(&p), derive(&[b"state-diff", k], &dlp_a));
        both(format!("commit_record {i}"), ext::commit_record_pda_from_delegated_account(&p), derive(&[b"commit-state-record", k], &dlp_a));
        both(format!("undelegate_buffer {i}"), ext::undelegate_buffer_pda_from_delegated_account(&p), derive(&[b"undelegate-buffer", k], &dlp_a));
        both(format!("validator_fees_vault {i}"), ext::validator_fees_vault_pda_from_validator(&p), derive(&[b"v-fees-vault", k], &dlp_a));
        both(format!("program_config {i}"), ext::program_config_from_program_id(&p), derive(&[b"p-conf", k], &dlp_a));
        for (j, o) in ks.iter().enumerate().step_by(5) {
            let own = Pubkey::new_from_array(*o);
            both(format!("delegate_buffer {i} {j}"), ext::delegate_buffer_pda_from_delegated_account_and_owner_program(&p, &own), derive(&[b"buffer", k], o));
        }
        for n in (0..256usize).step_by(if i == 0 { 1 } else { 85 }) {
            both(format!("ephemeral_balance {i} {n}"), ext::ephemeral_balance_pda_from_payer(&p, n as u8), derive(&[b"balance", k, &[n as u8]], &dlp_a));
        }
    }
    // the definition and the partner's helpers agree: a misreading here must not look like a defect of the SDK
    for (n, a, b) in &partner {
        assert!(a == b, "{n}: the definition used here is not the partner program's");
    }
    for s in SETS {
        let mut seen = std::collections::BTreeSet::new();
        for l in dump("addresses", s).unwrap().lines() {
            let (n, v) = l.rsplit_once(' ').unwrap();
            seen.insert(n.to_string());
            t.push((format!("sdk[{s}] {n}"), unhex(v), want.get(n).unwrap_or_else(|| panic!("{n}")).clone()));
        }
        let _ = seen;
    }
    // the API crate
    let pb = |p: Pubkey| p.to_bytes().to_vec();
    let kb = |k: ([u8; 32], u8)| [k.0.to_vec(), vec![k.1]].concat();
    let pk = |k: (Pubkey, u8)| [k.0.to_bytes().to_vec(), vec![k.1]].concat();
    t.push(("api ID".into(), pb(ephemeral_vrf_api::ID), vrf.clone()));
    t.push(("api id()".into(), pb(ephemeral_vrf_api::id()), vrf.clone()));
    t.push(("api program_identity_pda".into(), pk(api::program_identity_pda()), kb(ident)));
    t.push(("api oracles_pda".into(), pk(api::oracles_pda()), kb(derive(&[b"oracles"], &vrf_a))));
    t.push(("api ORACLES".into(), api::ORACLES.to_vec(), b"oracles".to_vec()));
    t.push(("api ORACLE_DATA".into(), api::ORACLE_DATA.to_vec(), b"oracle".to_vec()));
    t.push(("api IDENTITY".into(), api::IDENTITY.to_vec(), b"identity".to_vec()));
    t.push(("api QUEUE".into(), api::QUEUE.to_vec(), b"queue".to_vec()));
    t.push(("api MAGIC_PROGRAM_ID".into(), pb(api::MAGIC_PROGRAM_ID), pb(ephemeral_rollups_sdk::consts::MAGIC_PROGRAM_ID)));
    t.push(("api MAGIC_CONTEXT_ID".into(), pb(api::MAGIC_CONTEXT_ID), pb(ephemeral_rollups_sdk::consts::MAGIC_CONTEXT_ID)));
    t.push(("partner id".into(), pb(ephemeral_rollups_sdk::consts::DELEGATION_PROGRAM_ID), dlp.clone()));
    #[cfg(not(verif_default_queue))]
    t.push(("api DEFAULT_EPHEMERAL_QUEUE".into(), pb(api::DEFAULT_EPHEMERAL_QUEUE), b58("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc")));
    t.push(("api fee, high".into(), api::VRF_HIGH_PRIORITY_LAMPORTS_COST.to_le_bytes().to_vec(), 800_000u64.to_le_bytes().to_vec()));
    t.push(("api fee, regular".into(), api::VRF_LAMPORTS_COST.to_le_bytes().to_vec(), 500_000u64.to_le_bytes().to_vec()));
    t.push(("api time to live".into(), api::QUEUE_TTL_SLOTS.to_le_bytes().to_vec(), 240u64.to_le_bytes().to_vec()));
    t.push((
        "api base point".into(),
        api::RISTRETTO_BASEPOINT_POINT.0.to_vec(),
        curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED.to_bytes().to_vec(),
    ));
    for (i, k) in ks.iter().enumerate() {
        let p = Pubkey::new_from_array(*k);
        t.push((format!("api oracle_data_pda {i}"), pk(api::oracle_data_pda(&p)), kb(derive(&[b"oracle", k], &vrf_a))));
        for n in (0..=255u8).step_by(if i < 4 { 1 } else { 17 }) {
            t.push((format!("api oracle_queue_pda {i} {n}"), pk(api::oracle_queue_pda(&p, n)), kb(derive(&[b"queue", k, &[n]], &vrf_a))));
        }
    }
    sweep(
        "addresses and constants",
        t.len(),
        dl,
        |i, v, st| {
            let (n, got, want) = &t[i];
            st.op("compare", got == want);
            if got != want {
                v.push(viol(&["C29"], "wrong-address", format!("{n} is {} instead of {}", hex(got), hex(want))));
            }
        },
        |i| t[i].0.clone(),
    )
}

// ------------------------------------------------------------------------------------------------ C21
fn u8r(b: &[u8; 32], lo: u8, hi: u8) -> Option<u8> {
    std::panic::catch_unwind(|| rnd::random_u8_with_range(b, lo, hi)).ok()
}
/// counts per value of the range, or a violation
struct Count {
    c: [u32; 256],
}
fn range_label(lo: u8, hi: u8) -> String {
    format!("range {lo}..={hi}")
}
/// vary one byte over all its values in a constant background
fn one(lo: u8, hi: u8, bg: u8, pos: usize, v: &mut Vec<Viol>) -> Option<Count> {
    let mut c = [0u32; 256];
    let mut b = [bg; 32];
    for x in 0..=255u8 {
        b[pos] = x;
        match u8r(&b, lo, hi) {
            None => {
                v.push(viol(&["C21"], "panic", format!("random_u8_with_range(.., {lo}, {hi}) panics for byte {pos} = {x} in a background of {bg}")));
                return None;
            }
            Some(y) if y < lo || y > hi => {
                v.push(viol(&["C21"], "out-of-range", format!("random_u8_with_range(.., {lo}, {hi}) = {y} for byte {pos} = {x} in a background of {bg}")));
                return None;
            }
            Some(y) => c[(y - lo) as usize] += 1,
        }
    }
    Some(Count { c })
}
/// Of `total` equally likely seeds all but `fallback` must spread evenly: no value may come up less often than its share of those.
fn balanced(c: &[u32; 256], n: usize, total: u32, fallback: u32) -> bool {
    c[..n].iter().all(|x| *x >= (total - fallback) / n as u32)
}
pub fn ranges(dl: Instant, thorough: bool) -> Vec<(String, (Stats, Vec<Found>))> {
    let mut out = vec![];
    let pairs: Vec<(u8, u8)> = (0..=255u8).flat_map(|lo| (lo..=255).map(move |hi| (lo, hi))).collect();
    std::panic::set_hook(Box::new(|_| {}));
    // all ranges: an unusable background, every position deciding in turn
    let judge = |lo: u8, hi: u8, bg: u8, v: &mut Vec<Viol>, st: &mut Stats| {
        let n = (hi - lo) as usize + 1;
        let r = (256 % n) as u32;
        let usable = (bg as usize) < 256 - r as usize;
        let Some(f) = u8r(&[bg; 32], lo, hi) else {
            v.push(viol(&["C21"], "panic", format!("random_u8_with_range(.., {lo}, {hi}) panics for a seed of bytes {bg}")));
            return;
        };
        if f < lo || f > hi {
            v.push(viol(&["C21"], "out-of-range", format!("random_u8_with_range(.., {lo}, {hi}) = {f} for a seed of bytes {bg}")));
            return;
        }
        let free = (f - lo) as usize;
        let mut live = 0;
        for pos in 0..32 {
            let Some(c) = one(lo, hi, bg, pos, v) else { return };
            st.transitions += 255;
            st.op("evaluate", true);
            let constant = c.c[free] == 256;
            if constant && n > 1 {
                if !usable {
                    v.push(viol(&["C21"], "byte-ignored", format!("{}: byte {pos} is ignored although no other byte is usable (background {bg})", range_label(lo, hi))));
                    return;
                }
                continue;
            }
            live += 1;
            if !balanced(&c.c, n, 256, r) {
                v.push(viol(&["C21"], "biased", format!("{}: byte {pos} in a background of {bg} gives the values unevenly: {:?}", range_label(lo, hi), &c.c[..n.min(12)])));
                return;
            }
        }
        if live == 0 && n > 1 {
            v.push(viol(&["C21"], "constant", format!("{}: no byte decides in a background of {bg}", range_label(lo, hi))));
        }
    };
    out.push((
        "all ranges".into(),
        sweep(
            "rnd/all ranges",
            pairs.len() * 2,
            dl,
            |i, v, st| judge(pairs[i / 2].0, pairs[i / 2].1, if i % 2 == 0 { 255 } else { 0 }, v, st),
            |i| range_label(pairs[i / 2].0, pairs[i / 2].1),
        ),
    ));
    // every width at both ends of the domain (thorough: also in the middle), every background
    let at: Vec<(u8, u8)> = (0..=255u8)
        .flat_map(|d| {
            let mut v = vec![(0, d), (255 - d, 255)];
            if thorough {
                v.push(((255 - d) / 2, (255 - d) / 2 + d));
            }
            v
        })
        .collect();
    out.push((
        "all backgrounds".into(),
        sweep(
            "rnd/all backgrounds",
            at.len() * 32,
            dl,
            |i, v, st| {
                let ((lo, hi), pos) = (at[i / 32], i % 32);
                let n = (hi - lo) as usize + 1;
                let r = (256 % n) as u32;
                let mut c = [0u32; 256];
                for bg in 0..=255u8 {
                    let Some(one) = one(lo, hi, bg, pos, v) else { return };
                    for k in 0..256 {
                        c[k] += one.c[k];
                    }
                }
                st.transitions += 65535;
                st.op("evaluate", true);
                if !balanced(&c, n, 65536, r * r) {
                    v.push(viol(&["C21"], "biased", format!("{}: byte {pos} and all the others alike give the values unevenly: {:?}", range_label(lo, hi), &c[..n.min(12)])));
                }
            },
            |i| format!("{} byte {}", range_label(at[i / 32].0, at[i / 32].1), i % 32),
        ),
    ));
    // two positions at once, all 65536 values, the rest unusable
    let widths: Vec<usize> = (2..=256).collect();
    let pos: Vec<(usize, usize)> = if thorough {
        (0..32).flat_map(|p| (p + 1..32).map(move |q| (p, q))).collect()
    } else {
        (0..31).map(|p| (p, p + 1)).chain([(0, 31), (7, 23), (12, 30)]).collect()
    };
    out.push((
        "two bytes".into(),
        sweep(
            "rnd/two bytes",
            widths.len() * pos.len(),
            dl,
            |i, v, st| {
                let (n, (p, q)) = (widths[i / pos.len()], pos[i % pos.len()]);
                let r = (256 % n) as u32;
                let lo = ((256 - n) / 3) as u8;
                let hi = (lo as usize + n - 1) as u8;
                let mut b = [255u8; 32];
                let Some(f) = u8r(&b, lo, hi) else {
                    v.push(viol(&["C21"], "panic", format!("{}: panics for a seed of 255s", range_label(lo, hi))));
                    return;
                };
                let mut c = [0u32; 256];
                for x in 0..=255u8 {
                    for y in 0..=255u8 {
                        b[p] = x;
                        b[q] = y;
                        match u8r(&b, lo, hi) {
                            Some(z) if z >= lo && z <= hi => c[(z - lo) as usize] += 1,
                            z => {
                                v.push(viol(&["C21"], "out-of-range", format!("{}: bytes {p},{q} = {x},{y} give {z:?}", range_label(lo, hi))));
                                return;
                            }
                        }
                    }
                }
                st.transitions += 65535;
                st.op("evaluate", true);
                let free = (f - lo) as usize;
                let constant = c[free] == 65536;
                // with a power of two every byte is usable, so two bytes out of the way may not matter at all
                if !(constant && r == 0) && !balanced(&c, n, 65536, r * r) {
                    v.push(viol(&["C21"], "biased", format!("{}: bytes {p},{q} give the values unevenly: {:?}", range_label(lo, hi), &c[..n.min(12)])));
                }
            },
            |i| format!("width {} bytes {:?}", widths[i / pos.len()], pos[i % pos.len()]),
        ),
    ));
    if thorough {
        // three positions at once, the rest unusable
        let trip = [(31usize, 30usize, 29usize), (0, 1, 2), (3, 17, 31)];
        let x = sweep(
            "rnd/three bytes",
            255 * trip.len(),
            dl,
            |i, v, st| {
                let (n, (p, q, s)) = (i / trip.len() + 2, trip[i % trip.len()]);
                let r = (256 % n) as u32;
                let lo = ((256 - n) / 3) as u8;
                let hi = (lo as usize + n - 1) as u8;
                let mut b = [255u8; 32];
                let mut c = [0u32; 256];
                for t in 0..1u32 << 24 {
                    b[p] = t as u8;
                    b[q] = (t >> 8) as u8;
                    b[s] = (t >> 16) as u8;
                    match u8r(&b, lo, hi) {
                        Some(z) if z >= lo && z <= hi => c[(z - lo) as usize] += 1,
                        z => {
                            v.push(viol(&["C21"], "out-of-range", format!("{}: bytes {p},{q},{s} of {t:06x} give {z:?}", range_label(lo, hi))));
                            return;
                        }
                    }
                }
                st.transitions += (1 << 24) - 1;
                st.op("evaluate", true);
                let constant = c[..n].contains(&(1 << 24));
                if !(constant && r == 0) && !balanced(&c, n, 1 << 24, r * r * r) {
                    v.push(viol(&["C21"], "biased", format!("{}: bytes {p},{q},{s} give the values unevenly: {:?}", range_label(lo, hi), &c[..n.min(12)])));
                }
            },
            |i| format!("width {} bytes {:?}", i / trip.len() + 2, trip[i % trip.len()]),
        );
        out.push(("three bytes".into(), x));
    }
    let _ = std::panic::take_hook();
    out
}

// ------------------------------------------------------------------------------------------------ C22
type Helper = (&'static str, usize, fn(&[u8; 32]) -> u64);
fn helpers() -> Vec<Helper> {
    vec![
        ("random_u8", 8, |b| rnd::random_u8(b) as u64),
        ("random_u32", 32, |b| rnd::random_u32(b) as u64),
        ("random_i32", 32, |b| rnd::random_i32(b) as u32 as u64),
        ("random_u64", 64, |b| rnd::random_u64(b)),
        ("random_i64", 64, |b| rnd::random_i64(b) as u64),
        ("random_bool", 1, |b| rnd::random_bool(b) as u64),
    ]
}
fn backgrounds(n: usize) -> Vec<[u8; 32]> {
    let mut v = vec![[0; 32], [255; 32], [0xaa; 32], [0x55; 32]];
    for i in v.len()..n {
        v.push(h32(&format!("background {i}")));
    }
    v
}
pub fn integers(dl: Instant, thorough: bool) -> Vec<(String, (Stats, Vec<Found>))> {
    let hs = helpers();
    let bgs = backgrounds(if thorough { 400 } else { 40 });
    std::panic::set_hook(Box::new(|_| {}));
    let call = |h: &Helper, b: &[u8; 32]| -> Option<u64> { std::panic::catch_unwind(|| (h.2)(b)).ok() };
    // which seed bits each helper depends on, seen from every background
    let dep: Vec<Result<Vec<usize>, String>> = hs
        .iter()
        .map(|h| {
            let mut d = vec![];
            for bit in 0..256 {
                for bg in &bgs {
                    let mut b = *bg;
                    b[bit / 8] ^= 1 << (bit % 8);
                    match (call(h, bg), call(h, &b)) {
                        (Some(x), Some(y)) => {
                            if x != y {
                                d.push(bit);
                                break;
                            }
                        }
                        _ => return Err(format!("{} panics", h.0)),
                    }
                }
            }
            Ok(d)
        })
        .collect();
    let mut out = vec![];
    let a = sweep(
        "rnd/dependence",
        hs.len(),
        dl,
        |i, v, st| {
            st.transitions += 256 * bgs.len() as u64 - 1;
            st.op("evaluate", true);
            match &dep[i] {
                Err(e) => v.push(viol(&["C22"], "panic", e.clone())),
                Ok(d) if d.len() != hs[i].1 => {
                    v.push(viol(&["C22"], "wrong-width", format!("{} has {} bits but depends on {} seed bits", hs[i].0, hs[i].1, d.len())))
                }
                _ => {}
            }
            // deterministic; signed and unsigned agree
            for b in &bgs {
                if call(&hs[i], b) != call(&hs[i], b) {
                    v.push(viol(&["C22"], "nondeterministic", hs[i].0.to_string()));
                }
                if hs[i].0.starts_with("random_i") {
                    let u = hs[i].0.replace("_i", "_u");
                    let o = hs.iter().find(|h| h.0 == u).unwrap();
                    if call(&hs[i], b) != call(o, b) {
                        v.push(viol(&["C22"], "sign", format!("{} and {u} disagree", hs[i].0)));
                    }
                }
            }
        },
        |i| hs[i].0.to_string(),
    );
    out.push(("dependence".to_string(), a));
    // every value of each consumed byte, and every pair of values of each two consumed bytes: injective where all bits count
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (i, d) in dep.iter().enumerate() {
        let Ok(d) = d else { continue };
        let mut bytes: Vec<usize> = d.iter().map(|b| b / 8).collect();
        bytes.dedup();
        for (n, p) in bytes.iter().enumerate() {
            cases.push((i, *p, *p));
            for q in &bytes[n + 1..] {
                cases.push((i, *p, *q));
            }
        }
    }
    let b = sweep(
        "rnd/bijection",
        cases.len(),
        dl,
        |n, v, st| {
            let (i, p, q) = cases[n];
            let Ok(d) = &dep[i] else { return };
            let bits = d.iter().filter(|b| *b / 8 == p).count() + if p == q { 0 } else { d.iter().filter(|b| *b / 8 == q).count() };
            for bg in bgs.iter().take(if p == q { bgs.len() } else { 4 }) {
                let mut seen: BTreeMap<u64, u32> = BTreeMap::new();
                let mut b = *bg;
                let total: u32 = if p == q { 256 } else { 65536 };
                for x in 0..total {
                    b[p] = x as u8;
                    if p != q {
                        b[q] = (x >> 8) as u8;
                    }
                    match call(&hs[i], &b) {
                        Some(r) => *seen.entry(r).or_default() += 1,
                        None => {
                            v.push(viol(&["C22"], "panic", format!("{} panics", hs[i].0)));
                            return;
                        }
                    }
                }
                st.transitions += total as u64 - 1;
                st.op("evaluate", true);
                let each = total >> bits;
                if seen.len() != 1 << bits || seen.values().any(|c| *c != each) {
                    v.push(viol(
                        &["C22"],
                        "biased",
                        format!("{}: varying seed bytes {p} and {q} gives {} values, not {} equally often", hs[i].0, seen.len(), 1u64 << bits),
                    ));
                    return;
                }
            }
        },
        |n| format!("{} bytes {},{}", hs[cases[n].0].0, cases[n].1, cases[n].2),
    );
    out.push(("bijection".to_string(), b));
    // the bytes contribute independently: changing two bytes changes the result as changing each does
    let c = sweep(
        "rnd/separable",
        cases.len(),
        dl,
        |n, v, st| {
            let (i, p, q) = cases[n];
            if p == q {
                return;
            }
            let h = &hs[i];
            for bg in bgs.iter().take(4) {
                let base = call(h, bg);
                let mut g = vec![[0u64; 256]; 2];
                for (k, pos) in [p, q].iter().enumerate() {
                    for x in 0..256 {
                        let mut b = *bg;
                        b[*pos] = x as u8;
                        g[k][x] = call(h, &b).unwrap_or(0) ^ base.unwrap_or(0);
                    }
                }
                // the two bytes must reach different result bits
                let (m, o) = (g[0].iter().fold(0, |a, x| a | x), g[1].iter().fold(0, |a, x| a | x));
                st.transitions += 511;
                st.op("evaluate", true);
                if m & o != 0 {
                    v.push(viol(&["C22"], "overlap", format!("{}: seed bytes {p} and {q} reach the same result bits", h.0)));
                    return;
                }
            }
        },
        |n| format!("{} bytes {},{}", hs[cases[n].0].0, cases[n].1, cases[n].2),
    );
    out.push(("separable".to_string(), c));
    let _ = std::panic::take_hook();
    out
}
