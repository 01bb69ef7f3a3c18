//! Request ids.
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::{self, check_tx};
use crate::world::*;
use std::collections::BTreeMap;
use std::time::Instant;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct V {
    seed: [u8; 32],
    prog: u8,
    disc: Vec<u8>,
    slot: u64,
    time: i64,
    hash: [u8; 32],
}

/// every single-bit change of every input of the id gives a different id, also for the n-th identical request
pub fn variations(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let w0 = super::life::world(4000);
    let base = V { seed: [7; 32], prog: 0, disc: vec![1; 8], slot: 5000, time: 1_700_000_000, hash: h32("s") };
    let mut vs = vec![base.clone()];
    for i in 0..256 {
        let mut x = base.clone();
        x.seed[i / 8] ^= 1 << (i % 8);
        vs.push(x);
        let mut x = base.clone();
        x.hash[i / 8] ^= 1 << (i % 8);
        vs.push(x);
    }
    for i in 0..64 {
        let mut x = base.clone();
        x.slot ^= 1 << i;
        vs.push(x);
        let mut x = base.clone();
        x.time ^= 1 << i;
        vs.push(x);
        let mut x = base.clone();
        x.disc[i / 8] ^= 1 << (i % 8);
        vs.push(x);
    }
    for n in 0..8 {
        let mut x = base.clone();
        x.disc.truncate(n);
        vs.push(x);
    }
    for p in 1..=20 {
        let mut x = base.clone();
        x.prog = p;
        vs.push(x);
    }
    // swaps between fields
    for i in 0..32 {
        let mut x = base.clone();
        x.seed = [0; 32];
        x.seed[i] = 1;
        vs.push(x);
        let mut x = base.clone();
        x.hash = [0; 32];
        x.hash[i] = 1;
        vs.push(x);
    }
    let mut x = base.clone();
    x.seed = base.hash;
    x.hash = base.seed;
    vs.push(x);
    vs.sort();
    vs.dedup();
    // pairs of single-bit changes on neighbouring fields
    if thorough {
        let b = base.clone();
        for i in 0..256 {
            for j in 0..64 {
                let mut x = b.clone();
                x.seed[i / 8] ^= 1 << (i % 8);
                x.slot ^= 1 << j;
                vs.push(x);
            }
        }
    }
    let progs: Vec<_> = (0..=20).map(|p| if p == 0 { prog_x() } else { k(&format!("prog-{p}")) }).collect();
    let mut w0 = w0;
    for p in &progs {
        w0.set_prog(*p, Prog::Consumer(Behavior::Record));
    }
    const REP: usize = 4;
    let ids: Vec<std::sync::Mutex<Vec<[u8; 32]>>> = vs.iter().map(|_| Default::default()).collect();
    let (mut st, mut fs) = sweep(
        "ids/variations",
        vs.len(),
        dl,
        |i, v, st| {
            let x = &vs[i];
            let mut w = w0.clone();
            w.set_slot(x.slot, x.time, x.hash);
            let mut got = vec![];
            for n in 0..REP {
                let p = progs[x.prog as usize];
                let r = Req { seed: x.seed, prog: p, disc: x.disc.clone(), metas: vec![], args: vec![], high: n % 2 == 1 };
                let o2 = check_tx(&mut w, &[forward(p, &ix_request(&payer(), &q, &r))], &[payer()], v);
                st.op("request", o2.ok);
                let mut e = vec![];
                if let Some(it) = spec::decode_queue(w.data(&q), &mut e).and_then(|x| x.items.last().cloned()) {
                    got.push(it.id);
                }
            }
            *ids[i].lock().unwrap() = got;
        },
        |i| format!("request variation {i}"),
    );
    let mut seen: BTreeMap<[u8; 32], usize> = BTreeMap::new();
    for (i, l) in ids.iter().enumerate() {
        for id in l.lock().unwrap().iter() {
            st.transitions += 1;
            if let Some(j) = seen.insert(*id, i) {
                let (a, b) = (&vs[i], &vs[j]);
                let mut d = vec![];
                if i == j {
                    d.push("nothing (repeated)")
                }
                if a.seed != b.seed {
                    d.push("seed")
                }
                if a.prog != b.prog {
                    d.push("callback program")
                }
                if a.disc != b.disc {
                    d.push("discriminator")
                }
                if a.slot != b.slot {
                    d.push("slot")
                }
                if a.time != b.time {
                    d.push("time")
                }
                if a.hash != b.hash {
                    d.push("slot hash")
                }
                if fs.len() < 50 {
                    fs.push(Found {
                        viol: viol(&["C08"], "same-id", format!("two requests that differ in {} have the same id", d.join(" and "))),
                        scenario: "ids/variations".into(),
                        path: vec![],
                    });
                }
            }
        }
    }
    (st, fs)
}

/// histories of identical and near-identical requests in few slots, with removals
pub fn scen(depth: usize) -> Scen {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut w = super::life::world(1200);
    // requests of an earlier slot, which can be removed in the current one
    for s in [1u8, 1, 2] {
        must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), s)))], &[payer()]);
    }
    w.advance(1);
    let mut old = w.clone();
    old.advance(240);
    Scen {
        name: "ids/histories".into(),
        depth,
        max_states: 2_000_000,
        inits: vec![("three pending".into(), St::new(w)), ("three expired".into(), St::new(old))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            let a = Req::simple(prog_x(), 1);
            let mut b = a.clone();
            b.args = vec![1];
            let c = Req { metas: vec![(k("acct-1"), false, true)], ..a.clone() };
            let d = Req { seed: [2; 32], ..a.clone() };
            for (r, l) in [(a.clone(), "A"), (a.clone().high(), "A high"), (b, "A with arguments"), (c, "A with accounts"), (d, "B")] {
                v.push(a_request(prog_x(), &q, &r, l));
            }
            let two = forward(prog_x(), &ix_request(&payer(), &q, &a));
            v.push(tx("request A twice in one transaction", vec![two.clone(), two], &[payer()]));
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(o, &q, n, it));
            }
            v.push(a_purge(o, 0));
            v.push(adv(1));
            v
        }),
    }
}
