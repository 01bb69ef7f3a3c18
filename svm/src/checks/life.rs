//! Request life cycle: requests, fulfilments, purges and clock steps on one or several queues.
use crate::rt::*;
use crate::scen::*;
use crate::spec::Item;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub fn r_small() -> Req {
    Req::simple(prog_x(), 7)
}
/// unaligned sizes
pub fn r_mid() -> Req {
    Req {
        seed: [9; 32],
        prog: prog_y(),
        disc: vec![2, 3, 4],
        metas: vec![(k("acct-1"), false, false)],
        args: vec![5; 5],
        high: true,
    }
}
pub fn r_big() -> Req {
    Req {
        seed: [11; 32],
        prog: prog_x(),
        disc: vec![8; 8],
        metas: vec![(k("acct-1"), true, true), (prog_x(), false, false)],
        args: (0..60).collect(),
        high: false,
    }
}
pub fn r_empty() -> Req {
    Req { seed: [1; 32], prog: prog_x(), disc: vec![], metas: vec![], args: vec![], high: true }
}

pub fn world(size: u32) -> World {
    let mut w = with_oracles(&["oracle-a"]);
    add_queue(&mut w, "oracle-a", 0, size);
    w.put(k("acct-1"), Acct { lamports: 5_000_000, owner: prog_x(), executable: false, data: vec![1, 2, 3] });
    w
}

fn via(r: &Req) -> Pubkey {
    r.prog
}

/// one queue; every order of requests (three shapes), fulfilments of any item, purges and clock steps
pub fn single(depth: usize, size: u32) -> Scen {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    Scen {
        name: format!("life/one-queue size {size}"),
        depth,
        max_states: 3_000_000,
        inits: vec![("empty queue".into(), St::new(world(size)))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            for (r, l) in [(r_small(), "small"), (r_mid(), "mid/high"), (r_big(), "big")] {
                v.push(a_request(via(&r), &q, &r, l));
            }
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(o, &q, n, it));
            }
            v.push(a_purge(o, 0));
            v.push(adv(1));
            v.push(adv(240));
            // replay of a fulfilment that already happened
            if let Some(((_, id), _)) = s.ids.iter().find(|(_, r)| **r) {
                v.push(tx("provide again", vec![ix_provide(&o.id, &q, &prog_x(), id, &prove(o, id), &[])], &[o.id]));
            }
            v
        }),
    }
}

/// narrow and deep: one request shape, so the search reaches long histories
pub fn deep(depth: usize) -> Scen {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    Scen {
        name: "life/deep".into(),
        depth,
        max_states: 3_000_000,
        inits: vec![("empty queue".into(), St::new(world(8 + 16 + 104 * 3 + 60)))],
        acts: Box::new(move |s| {
            let mut v = vec![a_request(prog_x(), &q, &r_small(), "small")];
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(o, &q, n, it));
            }
            v.push(a_purge(o, 0));
            v.push(adv(1));
            v.push(adv(240));
            v
        }),
    }
}

/// several instructions of one transaction, in every combination
pub fn pairs(depth: usize) -> Scen {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut w = world(900);
    let mut s0 = w.clone();
    for r in [r_small(), r_mid()] {
        must(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()]);
    }
    w.advance(1);
    must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &r_big()))], &[payer()]);
    let mut w2 = w.clone();
    w2.advance(1);
    let mut w3 = w.clone();
    w3.advance(240);
    s0.advance(1);
    Scen {
        name: "life/instruction pairs".into(),
        depth,
        max_states: 3_000_000,
        inits: vec![
            ("empty".into(), St::new(s0)),
            ("three pending, one fresh".into(), St::new(w)),
            ("three pending, none fresh".into(), St::new(w2)),
            ("three pending, two expired".into(), St::new(w3)),
        ],
        acts: Box::new(move |s| {
            let mut one: Vec<(String, solana_program::instruction::Instruction)> = vec![];
            for (r, l) in [(r_small(), "small"), (r_mid(), "mid")] {
                one.push((format!("request {l}"), forward(r.prog, &ix_request(&payer(), &q, &r))));
            }
            for (n, it) in s.queue(&q).iter().enumerate() {
                one.push((format!("provide #{n}"), ix_fulfil(o, &q, it)));
            }
            one.push(("purge".into(), ix_purge(&o.id, 0)));
            one.push(("close".into(), ix_close(&o.id, 0)));
            // the id a request will get, so that it can be answered in the very same transaction
            let mut probe = s.w.clone();
            if probe.exec(&[forward(prog_x(), &ix_request(&payer(), &q, &r_small()))], &[payer()]).is_ok() {
                let mut e = vec![];
                if let Some(x) = crate::spec::decode_queue(probe.data(&q), &mut e) {
                    if let Some(it) = x.items.last() {
                        one.push(("provide next".into(), ix_fulfil(o, &q, it)));
                    }
                }
            }
            one.push(("init".into(), ix_init_queue(&o.id, &o.id, 0, 700)));
            let signers = [payer(), o.id];
            let mut v = vec![];
            for (la, a) in &one {
                for (lb, b) in &one {
                    v.push(tx(format!("[{la} ; {lb}]"), vec![a.clone(), b.clone()], &signers));
                }
            }
            v.push(adv(1));
            v
        }),
    }
}

/// two oracles with two queues each; every queue operation addressed to every queue by every oracle
pub fn multi(depth: usize) -> Scen {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut w = with_oracles(&["oracle-a", "oracle-b"]);
    for n in ["oracle-a", "oracle-b"] {
        add_queue(&mut w, n, 0, 420);
    }
    add_queue(&mut w, "oracle-a", 255, 420);
    let qs = [queue(&a.id, 0), queue(&a.id, 255), queue(&b.id, 0)];
    Scen {
        name: "life/two oracles, three queues".into(),
        depth,
        max_states: 3_000_000,
        inits: vec![("empty queues".into(), St::new(w))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            for (n, q) in qs.iter().enumerate() {
                v.push(a_request(prog_x(), q, &r_small(), &format!("small on queue {n}")));
                if n != 1 {
                    v.push(a_request(prog_y(), q, &r_mid(), &format!("mid on queue {n}")));
                }
            }
            let all: Vec<Vec<Item>> = qs.iter().map(|q| s.queue(q)).collect();
            for (n, q) in qs.iter().enumerate() {
                for its in &all {
                    for (i, it) in its.iter().enumerate().take(2) {
                        for o in [a, b] {
                            let mut x = a_fulfil(o, q, i, it);
                            x.label = format!("oracle {} {} at queue {n}", &o.id.to_string()[..4], x.label);
                            v.push(x);
                        }
                    }
                }
            }
            for (o, i) in [(a, 0), (a, 255), (b, 0), (b, 255)] {
                let mut x = a_purge(o, i);
                x.label = format!("purge {} {i}", &o.id.to_string()[..4]);
                v.push(x);
                v.push(tx(format!("close {} {i}", &o.id.to_string()[..4]), vec![ix_close(&o.id, i)], &[o.id]));
            }
            v.push(adv(1));
            v.push(adv(241));
            v
        }),
    }
}

/// extreme slot numbers: around 0, 2^32, 2^63 and 2^64, and around the time-to-live
pub fn boundaries() -> Vec<(String, St, Vec<u64>)> {
    let mut out = vec![];
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    for base in [1300u64, (1 << 32) - 3, (1 << 32) - 241, 1 << 63, (1 << 63) - 100, u64::MAX - 500] {
        let mut w = world(900);
        w.set_slot(base, 1_700_000_000, h32("b"));
        must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &r_small()))], &[payer()]);
        w.set_slot(base.saturating_add(3), 1_700_000_001, h32("c"));
        must(&mut w, &[forward(prog_y(), &ix_request(&payer(), &q, &r_mid()))], &[payer()]);
        let mut slots = vec![];
        for d in [0u64, 1, 2, 3, 4, 5, 199, 200, 239, 240, 241, 242, 243, 244, 245, 246, 255, 256, 257, 480, 481, 499] {
            slots.push(base.saturating_add(d));
        }
        for s in [u32::MAX as u64, (1 << 32) + base, base.wrapping_sub(1), base.saturating_sub(240), base.saturating_sub(241), u64::MAX - 1, u64::MAX, 0, 1] {
            slots.push(s);
        }
        slots.sort();
        slots.dedup();
        out.push((format!("requests at slots {base} and {}", base.saturating_add(3)), St::new(w), slots));
    }
    out
}
pub fn boundary_scen() -> Scen {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut inits = vec![];
    for (l, s, slots) in boundaries() {
        for t in slots {
            let mut s = s.clone();
            s.w.set_slot(t, 1_700_000_500, h32("d"));
            inits.push((format!("{l}, now {t}"), s));
        }
    }
    Scen {
        name: "life/slot boundaries".into(),
        depth: 3,
        max_states: 3_000_000,
        inits,
        acts: Box::new(move |s| {
            let mut v = vec![];
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(o, &q, n, it));
            }
            v.push(a_purge(o, 0));
            v.push(a_request(prog_x(), &q, &r_small(), "small"));
            v
        }),
    }
}
