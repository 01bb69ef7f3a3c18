//! Every instruction of a rich world, with every account replaced by every other account, every flag changed,
//! accounts dropped / appended / swapped, and every payload bit flipped.
use crate::dlp;
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::check_tx;
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::time::Instant;

pub struct Stage {
    pub w: World,
    pub bases: Vec<Base>,
    pub universe: Vec<(String, Pubkey)>,
    pub small: Vec<(String, Pubkey)>,
    pub keypairs: Vec<Pubkey>,
}
pub struct Base {
    pub label: String,
    pub ix: Instruction,
    /// executed by CPI from this program
    pub via: Option<Pubkey>,
    pub signers: Vec<Pubkey>,
}
const STAKE_HISTORY: Pubkey = solana_sdk_ids::sysvar::stake_history::ID;
const INSTRUCTIONS: Pubkey = solana_sdk_ids::sysvar::instructions::ID;
pub const ORACLES: [&str; 4] = ["oracle-a", "oracle-b", "oracle-c", "oracle-d"];

/// a world in which every kind of account exists in every state
pub fn rich() -> World {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut w = with_oracles(&ORACLES);
    w.put(k("acct-1"), Acct { lamports: 5_000_000, owner: prog_x(), executable: false, data: vec![1, 2, 3] });
    add_queue(&mut w, "oracle-a", 0, 2000);
    add_queue(&mut w, "oracle-a", 1, 600);
    add_queue(&mut w, "oracle-a", 3, 600);
    add_queue(&mut w, "oracle-a", 9, 600);
    add_queue(&mut w, "oracle-b", 0, 600);
    add_queue(&mut w, "oracle-b", 1, 600);
    must(&mut w, &[ix_init_queue(&a.id, &a.id, 2, 15_000)], &[a.id]);
    let q = queue(&a.id, 0);
    use super::life::*;
    for (d, r) in [(0, r_small()), (236, r_big()), (5, r_mid())] {
        w.advance(d);
        must(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()]);
    }
    must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &queue(&b.id, 0), &r_small()))], &[payer()]);
    must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &queue(&a.id, 3), &r_small()))], &[payer()]);
    must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &queue(&a.id, 9), &r_small()))], &[payer()]);
    must(&mut w, &[ix_delegate(&a.id, &queue(&a.id, 3), 3)], &[a.id]);
    // other sysvars: same owner as the slot hashes, other content
    for (n, d) in [STAKE_HISTORY, INSTRUCTIONS].iter().enumerate() {
        w.put(*d, Acct { lamports: RICH, owner: solana_sdk_ids::sysvar::ID, executable: false, data: vec![n as u8; 600] });
    }
    w.set_prog(MAGIC, Prog::Magic);
    w.put(MAGIC_CTX, Acct { lamports: RICH, owner: MAGIC, executable: false, data: vec![] });
    // look-alikes owned by another program
    let copy = |w: &mut World, name: &str, data: Vec<u8>| {
        w.put(k(name), Acct { lamports: RICH, owner: prog_y(), executable: false, data });
    };
    let d = w.data(&q).to_vec();
    copy(&mut w, "fake-queue", d);
    let mut d = w.data(&record(&a.id)).to_vec();
    d[8..40].copy_from_slice(&oracle("oracle-m").pk);
    copy(&mut w, "fake-record", d);
    let d = w.data(&registry()).to_vec();
    copy(&mut w, "fake-registry", d);
    copy(&mut w, "fake-programdata", program_data_bytes(Some(mallory())));
    // an empty registry with exactly the lamports an empty registry needs: nothing has to be written to it
    let d = w.data(&registry())[..8].iter().copied().chain([0; 4]).collect::<Vec<u8>>();
    w.put(k("empty-registry"), Acct { lamports: rent(d.len()), owner: prog_y(), executable: false, data: d });
    // the program data of somebody else's program
    let loader = solana_sdk_ids::bpf_loader_upgradeable::ID;
    w.put(k("other-programdata"), Acct { lamports: RICH, owner: loader, executable: false, data: program_data_bytes(Some(mallory())) });
    let d = w.data(&SLOT_HASHES).to_vec();
    copy(&mut w, "fake-slothashes", d);
    w.put(k("dlp-buffer"), Acct { lamports: RICH, owner: dlp::ID, executable: false, data: vec![0; 600] });
    w.put(k("zeroed"), Acct { lamports: RICH, owner: prog_y(), executable: false, data: vec![0; 600] });
    w.put(k("poor"), Acct::system(1000));
    w.advance(1);
    w
}

fn item(w: &World, q: &Pubkey, n: usize) -> crate::spec::Item {
    let mut e = vec![];
    crate::spec::decode_queue(w.data(q), &mut e).unwrap().items[n].clone()
}

pub fn stage() -> Stage {
    let w = rich();
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let qa = queue(&a.id, 0);
    let mut bases = vec![];
    let mut add = |l: &str, ix: Instruction, via: Option<Pubkey>, s: &[Pubkey]| {
        bases.push(Base { label: l.into(), ix, via, signers: s.to_vec() })
    };
    add("initialize", ix_initialize(&admin()), None, &[admin()]);
    let e = oracle("oracle-e");
    add("add oracle", ix_add(&admin(), &e.id, &e.pk), None, &[admin()]);
    add("remove oracle", ix_remove(&admin(), &oracle("oracle-d").id), None, &[admin()]);
    add("init new queue", ix_init_queue(&payer(), &a.id, 4, 500), None, &[payer(), a.id]);
    add("start large queue", ix_init_queue(&payer(), &a.id, 4, 12_000), None, &[payer(), a.id]);
    add("finish large queue", ix_init_queue(&a.id, &a.id, 2, 15_000), None, &[a.id]);
    use super::life::*;
    add("request", ix_request(&payer(), &qa, &r_small()), Some(prog_x()), &[payer()]);
    add("high-priority request", ix_request(&payer(), &queue(&b.id, 1), &r_mid()), Some(prog_y()), &[payer()]);
    for n in 0..3 {
        add(&format!("provide a0 #{n}"), ix_fulfil(a, &qa, &item(&w, &qa, n)), None, &[a.id]);
    }
    let qb = queue(&b.id, 0);
    add("provide b0", ix_fulfil(b, &qb, &item(&w, &qb, 0)), None, &[b.id]);
    let qd = queue(&a.id, 9);
    add("request on the default queue", ix_request(&payer(), &qd, &r_small()), Some(prog_x()), &[payer()]);
    add("provide default queue", ix_fulfil(a, &qd, &item(&w, &qd, 0)), None, &[a.id]);
    add("delegate", ix_delegate(&a.id, &queue(&a.id, 1), 1), None, &[a.id]);
    add("undelegate", ix_undelegate(&a.id, &queue(&a.id, 1), 1), None, &[a.id]);
    add("close", ix_close(&a.id, 1), None, &[a.id]);
    add("purge", ix_purge(&a.id, 0), None, &[payer()]);
    let seeds = |s: &[&[u8]]| -> Vec<Vec<u8>> { s.iter().map(|x| x.to_vec()).collect() };
    let un = ix_process_undelegation(
        &queue(&a.id, 9),
        &k("dlp-buffer"),
        &mallory(),
        &seeds(&[b"queue", a.id.as_ref(), &[9]]),
    );
    add("process undelegation of a missing queue", un, None, &[mallory(), k("dlp-buffer")]);
    let un = ix_process_undelegation(&record(&e.id), &k("dlp-buffer"), &mallory(), &seeds(&[b"oracle", e.id.as_ref()]));
    add("process undelegation of a missing record", un, None, &[mallory(), k("dlp-buffer")]);
    let un = ix_process_undelegation(&qa, &k("dlp-buffer"), &mallory(), &seeds(&[b"queue", a.id.as_ref(), &[0]]));
    add("process undelegation of a live queue", un, None, &[mallory(), k("dlp-buffer")]);
    let mut universe: Vec<(String, Pubkey)> = vec![];
    let mut u = |l: &str, p: Pubkey| {
        if !universe.iter().any(|x| x.1 == p) {
            universe.push((l.into(), p))
        }
    };
    for (l, o) in [("a", a), ("b", b)] {
        u(&format!("oracle {l}"), o.id);
        u(&format!("record {l}"), record(&o.id));
        for i in 0..5 {
            u(&format!("queue {l}{i}"), queue(&o.id, i));
        }
        u(&format!("buffer pda {l}1"), pda(&[b"buffer", queue(&o.id, 1).as_ref()], &VRF));
        u(&format!("delegation pda {l}1"), pda(&[b"delegation", queue(&o.id, 1).as_ref()], &dlp::ID));
        u(&format!("delegation metadata pda {l}1"), pda(&[b"delegation-metadata", queue(&o.id, 1).as_ref()], &dlp::ID));
    }
    let small = [
        ("registry", registry()),
        ("admin", admin()),
        ("payer", payer()),
        ("mallory", mallory()),
        ("vrf program", VRF),
        ("system program", sys_id()),
        ("program x", prog_x()),
        ("identity x", identity_of(&prog_x())),
        ("identity y", identity_of(&prog_y())),
        ("vrf identity", vrf_identity()),
        ("fake queue", k("fake-queue")),
        ("fake record", k("fake-record")),
        ("dlp buffer", k("dlp-buffer")),
        ("delegation program", dlp::ID),
        ("other program data", k("other-programdata")),
        ("empty registry", k("empty-registry")),
    ];
    for (l, p) in small {
        u(l, p);
    }
    for (l, p) in [
        ("oracle e (not registered)", e.id),
        ("record e (missing)", record(&e.id)),
        ("record d", record(&oracle("oracle-d").id)),
        ("record m (missing)", record(&mallory())),
        ("mallory's queue (missing)", queue(&mallory(), 1)),
        ("program y", prog_y()),
        ("slot hashes", SLOT_HASHES),
        ("stake history", STAKE_HISTORY),
        ("instructions sysvar", INSTRUCTIONS),
        ("clock", solana_sdk_ids::sysvar::clock::ID),
        ("program data", program_data()),
        ("fake registry", k("fake-registry")),
        ("fake program data", k("fake-programdata")),
        ("fake slot hashes", k("fake-slothashes")),
        ("zeroed", k("zeroed")),
        ("poor", k("poor")),
        ("acct-1", k("acct-1")),
        ("absent", k("absent")),
        ("magic program", MAGIC),
        ("magic context", MAGIC_CTX),
        ("default queue", api::DEFAULT_EPHEMERAL_QUEUE),
    ] {
        u(l, p);
    }
    let small = universe
        .iter()
        .filter(|x| {
            small.iter().any(|y| y.1 == x.1)
                || ["oracle a", "oracle b", "record a", "record b", "queue a0", "queue a1", "queue a2", "queue a3", "queue b0", "queue a4"]
                    .contains(&x.0.as_str())
        })
        .cloned()
        .collect();
    let keypairs = ["admin", "payer", "mallory", "validator", "oracle-a", "oracle-b", "oracle-c", "oracle-d", "oracle-e", "dlp-buffer", "poor", "fake-queue", "fake-record", "zeroed", "absent", "acct-1", "fake-registry", "fake-programdata", "fake-slothashes", "empty-registry", "other-programdata"]
        .iter()
        .map(|n| k(n))
        .collect();
    Stage { w, bases, universe, small, keypairs }
}

impl Stage {
    /// sign a mutated instruction with every key an outsider could hold among those flagged as signers
    pub fn case(&self, b: &Base, label: String, mut ix: Instruction) -> Case {
        let mut signers = b.signers.clone();
        for m in ix.accounts.iter_mut() {
            if m.is_signer {
                if self.keypairs.contains(&m.pubkey) {
                    signers.push(m.pubkey)
                } else if b.via.map(|v| identity_of(&v)) != Some(m.pubkey) {
                    m.is_signer = false;
                }
            }
        }
        // an account that is passed as a non-signer did not sign
        signers.retain(|s| {
            let mut m = ix.accounts.iter().filter(|m| m.pubkey == *s).peekable();
            m.peek().is_none() || m.any(|m| m.is_signer)
        });
        signers.sort();
        signers.dedup();
        let ix = match b.via {
            Some(v) => forward(v, &ix),
            None => ix,
        };
        Case { label: format!("{}: {label}", b.label), ixs: vec![ix], signers }
    }
    pub fn singles(&self) -> Vec<Case> {
        let mut out = vec![];
        for b in &self.bases {
            out.push(self.case(b, "unchanged".into(), b.ix.clone()));
            let n = b.ix.accounts.len();
            for p in 0..n {
                for (l, u) in &self.universe {
                    let mut ix = b.ix.clone();
                    ix.accounts[p].pubkey = *u;
                    out.push(self.case(b, format!("account {p} := {l}"), ix.clone()));
                    if ix.accounts[p].is_signer {
                        ix.accounts[p].is_signer = false;
                        out.push(self.case(b, format!("account {p} := {l}, not signing"), ix.clone()));
                    }
                    if !ix.accounts[p].is_writable {
                        ix.accounts[p].is_writable = true;
                        out.push(self.case(b, format!("account {p} := {l}, writable"), ix));
                    }
                }
                let mut ix = b.ix.clone();
                ix.accounts[p].is_writable ^= true;
                out.push(self.case(b, format!("account {p} writable := {}", ix.accounts[p].is_writable), ix));
                let mut ix = b.ix.clone();
                if ix.accounts[p].is_signer {
                    ix.accounts[p].is_signer = false;
                    out.push(self.case(b, format!("account {p} not signing"), ix));
                }
                let mut ix = b.ix.clone();
                ix.accounts.remove(p);
                out.push(self.case(b, format!("account {p} dropped"), ix));
                for q in 0..p {
                    let mut ix = b.ix.clone();
                    ix.accounts.swap(p, q);
                    out.push(self.case(b, format!("accounts {q} and {p} swapped"), ix.clone()));
                    let mut ix = b.ix.clone();
                    let (x, y) = (ix.accounts[p].pubkey, ix.accounts[q].pubkey);
                    ix.accounts[p].pubkey = y;
                    ix.accounts[q].pubkey = x;
                    out.push(self.case(b, format!("keys {q} and {p} swapped"), ix));
                }
            }
            for (l, u) in &self.universe {
                for wr in [false, true] {
                    let mut ix = b.ix.clone();
                    ix.accounts.push(AccountMeta { pubkey: *u, is_signer: false, is_writable: wr });
                    out.push(self.case(b, format!("account {l} appended (writable {wr})"), ix));
                }
            }
            // the same instruction outside / inside the wrong program
            let mut c = self.case(b, "executed directly".into(), b.ix.clone());
            let mut ix = b.ix.clone();
            for m in ix.accounts.iter_mut() {
                m.is_signer &= self.keypairs.contains(&m.pubkey);
            }
            c.ixs = vec![ix.clone()];
            out.push(c);
            for v in [prog_x(), prog_y()] {
                let mut c = self.case(b, format!("executed by CPI from {}", if v == prog_x() { "x" } else { "y" }), b.ix.clone());
                let mut ix = b.ix.clone();
                for m in ix.accounts.iter_mut() {
                    m.is_signer &= self.keypairs.contains(&m.pubkey) || m.pubkey == identity_of(&v);
                }
                c.ixs = vec![forward(v, &ix)];
                out.push(c);
            }
        }
        out
    }
    /// every payload bit flipped, every index byte tried
    pub fn payloads(&self) -> Vec<Case> {
        let mut out = vec![];
        for b in &self.bases {
            for i in 0..b.ix.data.len() {
                for bit in 0..8 {
                    let mut ix = b.ix.clone();
                    ix.data[i] ^= 1 << bit;
                    out.push(self.case(b, format!("payload byte {i} bit {bit} flipped"), ix));
                }
            }
            if b.ix.data.len() == 9 {
                for v in 0..=255u8 {
                    let mut ix = b.ix.clone();
                    ix.data[8] = v;
                    out.push(self.case(b, format!("index {v}"), ix));
                }
            }
            for n in 0..b.ix.data.len() {
                let mut ix = b.ix.clone();
                ix.data.truncate(n);
                out.push(self.case(b, format!("payload cut to {n} bytes"), ix));
            }
            for n in [1usize, 2, 7, 8, 31, 32, 33, 64, 500] {
                let mut ix = b.ix.clone();
                ix.data.extend(vec![0; n]);
                out.push(self.case(b, format!("payload extended by {n} zero bytes"), ix.clone()));
                let l = ix.data.len();
                ix.data[l - 1] = 1;
                out.push(self.case(b, format!("payload extended by {n} bytes"), ix));
            }
        }
        out
    }
}
#[derive(Clone)]
pub struct Case {
    pub label: String,
    pub ixs: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
}

pub fn run_case(w: &World, c: &Case, v: &mut Vec<Viol>, st: &mut Stats) {
    let mut w = w.clone();
    let o = check_tx(&mut w, &c.ixs, &c.signers, v);
    st.op(&opname(&c.ixs), o.ok);
    if o.ok && o.post != o.pre {
        st.states += 1;
    }
}

pub fn singles(dl: Instant, filter: impl Fn(&Base) -> bool) -> (Stats, Vec<Found>) {
    let mut s = stage();
    s.bases.retain(filter);
    let cases = s.singles();
    sweep("substitution/single account", cases.len(), dl, |i, v, st| run_case(&s.w, &cases[i], v, st), |i| cases[i].label.clone())
}
pub fn payloads(dl: Instant, filter: impl Fn(&Base) -> bool) -> (Stats, Vec<Found>) {
    let mut s = stage();
    s.bases.retain(filter);
    let cases = s.payloads();
    sweep("substitution/payload", cases.len(), dl, |i, v, st| run_case(&s.w, &cases[i], v, st), |i| cases[i].label.clone())
}
/// requests of every shape (in the middle of a queue): requested, fulfilled, purged with every account replaced
pub fn shapes(dl: Instant, full: bool, filter: impl Fn(&Base) -> bool) -> (Stats, Vec<Found>) {
    use super::life::*;
    let mut stage = stage();
    let a = oracle("oracle-a");
    let q = queue(&a.id, 4);
    let uni = if full { stage.universe.clone() } else { stage.small.clone() };
    let acct: Vec<Pubkey> = (0..20).map(|i| k(&format!("cb-{i}"))).collect();
    for x in &acct {
        stage.w.put(*x, Acct { lamports: 5_000_000, owner: prog_x(), executable: false, data: vec![1] });
    }
    let (ds, ms, as_): (&[usize], &[usize], &[usize]) =
        if full { (&[0, 1, 2, 3, 4, 5, 6, 7, 8], &[0, 1, 2, 3, 19, 20], &[0, 1, 2, 7, 8, 32, 255, 256, 511, 512]) } else { (&[0, 1, 7, 8], &[0, 1, 2, 20], &[0, 1, 8, 512]) };
    add_queue(&mut stage.w, "oracle-a", 4, 6000);
    stage.bases.clear();
    let mut worlds = vec![];
    let mut todo: Vec<(usize, Base)> = vec![];
    for &d in ds {
        for &m in ms {
            for &n in as_ {
                for (prog, high) in [(prog_x(), true), (prog_y(), false)] {
                    let r = Req {
                        seed: [3; 32],
                        prog,
                        disc: (0..d).map(|x| 0xd0 + x as u8).collect(),
                        metas: (0..m).map(|x| (acct[x], x % 2 == 1, x % 3 == 0)).collect(),
                        args: (0..n).map(|x| (x * 7 + 1) as u8).collect(),
                        high,
                    };
                    let l = format!("(discriminator {d}, accounts {m}, arguments {n}, high {high})");
                    let mut add = |i: usize, l: String, ix: Instruction, via: Option<Pubkey>, s: &[Pubkey]| {
                        let b = Base { label: l, ix, via, signers: s.to_vec() };
                        if filter(&b) {
                            todo.push((i, b));
                        }
                    };
                    let mut w = stage.w.clone();
                    let pass = |w: &mut World, r: &Req| w.exec(&[forward(r.prog, &ix_request(&payer(), &q, r))], &[payer()]).is_ok();
                    let before = worlds.len();
                    pass(&mut w, &r_mid());
                    worlds.push(w.clone());
                    add(before, format!("request {l}"), ix_request(&payer(), &q, &r), Some(prog), &[payer()]);
                    if !pass(&mut w, &r) {
                        continue; // (the unchanged case above reports that)
                    }
                    w.advance(1);
                    pass(&mut w, &r_small());
                    w.advance(1);
                    let mut e = vec![];
                    let Some(it) = crate::spec::decode_queue(w.data(&q), &mut e).and_then(|x| x.items.get(1).cloned()) else { continue };
                    let now = worlds.len();
                    worlds.push(w.clone());
                    add(now, format!("provide {l}"), ix_fulfil(a, &q, &it), None, &[a.id]);
                    w.advance(240);
                    let late = worlds.len();
                    worlds.push(w);
                    add(late, format!("purge {l}"), ix_purge(&a.id, 4), None, &[payer()]);
                }
            }
        }
    }
    let mut offs = vec![];
    let mut total = 0;
    let per = uni.len() * 2 + 2;
    for (i, (_, b)) in todo.iter().enumerate() {
        offs.push((total, i));
        // (callback accounts of a fulfilment are the callback's business: the first seven places)
        total += 1 + b.ix.accounts.len().min(7) * per;
    }
    let case = |i: usize| -> (usize, Case) {
        let (o, t) = offs[offs.partition_point(|x| x.0 <= i) - 1];
        let (wi, b) = &todo[t];
        let mut ix = b.ix.clone();
        if i == o {
            return (*wi, stage.case(b, "unchanged".into(), ix));
        }
        let (p, x) = ((i - o - 1) / per, (i - o - 1) % per);
        let l = match x {
            0 => {
                ix.accounts[p].is_signer = false;
                "not signing".to_string()
            }
            1 => {
                ix.accounts[p].is_writable ^= true;
                "writable flag changed".into()
            }
            _ => {
                let u = &uni[(x - 2) / 2];
                ix.accounts[p].pubkey = u.1;
                if x % 2 == 1 {
                    ix.accounts[p].is_signer = false;
                }
                format!(":= {}{}", u.0, if x % 2 == 1 { ", not signing" } else { "" })
            }
        };
        (*wi, stage.case(b, format!("account {p} {l}"), ix))
    };
    sweep(
        "substitution/shapes",
        total,
        dl,
        |i, v, st| {
            let (wi, c) = case(i);
            run_case(&worlds[wi], &c, v, st)
        },
        |i| case(i).1.label,
    )
}
/// two accounts replaced at once
pub fn doubles(dl: Instant, full: bool, filter: impl Fn(&Base) -> bool) -> (Stats, Vec<Found>) {
    let mut s = stage();
    s.bases.retain(filter);
    let uni = if full { s.universe.clone() } else { s.small.clone() };
    let n = uni.len();
    let mut offs = vec![];
    let mut total = 0;
    for (bi, b) in s.bases.iter().enumerate() {
        let m = b.ix.accounts.len();
        for p in 0..m {
            for q in 0..p {
                offs.push((total, bi, p, q));
                total += n * n;
            }
        }
    }
    let case = |i: usize| -> Case {
        let j = offs.partition_point(|x| x.0 <= i) - 1;
        let (o, bi, p, q) = offs[j];
        let (x, y) = ((i - o) / n, (i - o) % n);
        let b = &s.bases[bi];
        let mut ix = b.ix.clone();
        ix.accounts[p].pubkey = uni[x].1;
        ix.accounts[q].pubkey = uni[y].1;
        s.case(b, format!("account {p} := {}, account {q} := {}", uni[x].0, uni[y].0), ix)
    };
    sweep("substitution/two accounts", total, dl, |i, v, st| run_case(&s.w, &case(i), v, st), |i| case(i).label)
}

/// who fulfils what with whose proof: signer x signature x oracle record x queue x claimed request x proving key x proven input
pub fn provers(dl: Instant) -> (Stats, Vec<Found>) {
    let mut w = rich();
    let (a, b, m) = (oracle("oracle-a"), oracle("oracle-b"), oracle("oracle-m"));
    let signers = [a.id, b.id, mallory(), payer()];
    let records = [record(&a.id), record(&b.id), k("fake-record"), registry(), record(&mallory())];
    let queues = [queue(&a.id, 0), queue(&a.id, 1), queue(&a.id, 3), queue(&b.id, 0), k("fake-queue")];
    // the same request pends in queues of two oracles
    for i in [0u8, 1] {
        let _ = check_tx(&mut w, &[forward(prog_x(), &ix_request(&payer(), &queue(&b.id, i), &super::life::r_small()))], &[payer()], &mut vec![]);
    }
    w.advance(1);
    let mut items: Vec<crate::spec::Item> = vec![];
    for q in &queues {
        let mut e = vec![];
        if let Some(x) = crate::spec::decode_queue(w.data(q), &mut e) {
            for i in x.items {
                if !items.iter().any(|y| y.id == i.id) {
                    items.push(i)
                }
            }
        }
    }
    // the ids, and ids that differ from them in one byte
    let mut ids: Vec<(usize, [u8; 32], String)> = vec![];
    for (n, it) in items.iter().enumerate() {
        ids.push((n, it.id, format!("request {n}")));
        for byte in 0..32 {
            let mut id = it.id;
            id[byte] ^= 0x41;
            ids.push((n, id, format!("request {n} with byte {byte} changed")));
        }
    }
    ids.push((0, [0; 32], "request zero".into()));
    let keys = [a, b, m];
    let dims = [signers.len(), 2, records.len(), queues.len(), ids.len(), keys.len(), 2];
    let n: usize = dims.iter().product();
    let get = |mut i: usize| {
        let mut out = [0; 7];
        for (o, d) in out.iter_mut().zip(dims) {
            *o = i % d;
            i /= d;
        }
        out
    };
    sweep(
        "who fulfils",
        n,
        dl,
        |i, v, st| {
            let [s, sg, rc, qu, id, key, real] = get(i);
            let (n, id, _) = &ids[id];
            // the proof is for the claimed id, or for the pending request it resembles
            let of = if real == 1 { items[*n].id } else { *id };
            if real == 1 && of == *id {
                return;
            }
            let mut ix = ix_provide(&signers[s], &queues[qu], &items[*n].prog, id, &prove(keys[key], &of), &rest_of(&items[*n]));
            ix.accounts[2].pubkey = records[rc];
            ix.accounts[0].is_signer = sg == 1;
            let sig: Vec<Pubkey> = if sg == 1 { vec![signers[s]] } else { vec![] };
            let mut w = w.clone();
            let o = check_tx(&mut w, &[ix], &sig, v);
            st.op("provide", o.ok);
            st.states += o.ok as u64;
        },
        |i| {
            let [s, sg, rc, qu, id, key, real] = get(i);
            format!("signer {s} (signing: {sg}), record {rc}, queue {qu}, {}, proof by key {key} for {}", ids[id].2, if real == 1 { "the pending request" } else { "it" })
        },
    )
}
