//! Fees, including the fee-free default queue and payers with barely enough.
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::check_tx;
use crate::world::*;
use std::time::Instant;

/// one ordinary queue and the default queue of the same oracle
pub fn scen(depth: usize) -> Scen {
    let o = oracle("oracle-a");
    let mut w = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut w, "oracle-a", 0, 420);
    add_queue(&mut w, "oracle-a", 9, 420);
    let qs = [(0u8, queue(&o.id, 0)), (9, queue(&o.id, 9))];
    assert!(qs[1].1 == crate::spec::default_queue(), "the hook cfg(verif_default_queue) is not active");
    // lamports that somebody gave to the queues beyond what they need
    let mut rich = w.clone();
    for (_, q) in &qs {
        let mut a = rich.get(q).unwrap().clone();
        a.lamports += 5_000_000_000;
        rich.put(*q, a);
    }
    Scen {
        name: "fees/ordinary and default queue".into(),
        depth,
        max_states: 2_000_000,
        inits: vec![("empty queues".into(), St::new(w)), ("empty queues with a surplus".into(), St::new(rich))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            for (i, q) in &qs {
                v.push(a_request(prog_x(), q, &super::life::r_small(), &format!("small on {i}")));
                v.push(a_request(prog_x(), q, &super::life::r_small().high(), &format!("small/high on {i}")));
                for (n, it) in s.queue(q).iter().enumerate() {
                    v.push(a_fulfil(o, q, n, it));
                }
                v.push(a_purge(o, *i));
                let mut x = a_purge(oracle("oracle-b"), *i);
                if let Do::Tx(ixs, _) = &mut x.d {
                    ixs[0].accounts[1].pubkey = *q;
                }
                x.label = format!("purge {i} in favour of oracle b");
                v.push(x);
                v.push(tx(format!("close {i}"), vec![ix_close(&o.id, *i)], &[o.id]));
            }
            v.push(super::admin::donate(qs[0].1, 1_234_567, "the queue"));
            v.push(super::admin::donate(qs[1].1, 7, "the default queue"));
            v.push(adv(1));
            v.push(adv(241));
            v
        }),
    }
}

/// payers around the exact fee and around the rent-exempt minimum
pub fn balances(dl: Instant) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let mut w0 = with_oracles(&["oracle-a"]);
    add_queue(&mut w0, "oracle-a", 0, 600);
    add_queue(&mut w0, "oracle-a", 9, 600);
    let r0 = rent(0);
    let mut amounts: Vec<u64> = vec![0, 1, 5000, r0 - 1, r0, r0 + 1];
    for f in [500_000u64, 800_000] {
        for b in [0, r0] {
            for d in -2i64..=2 {
                amounts.push((f + b).wrapping_add(d as u64));
            }
            amounts.push(2 * f + b);
            amounts.push(2 * f + b - 1);
        }
    }
    amounts.sort();
    amounts.dedup();
    let p = k("some-payer");
    sweep(
        "fees/payer balances",
        amounts.len() * 16,
        dl,
        |i, v, st| {
            let (amt, m) = (amounts[i / 16], i % 16);
            let (high, idx, owned, twice) = (m & 1 == 1, if m & 2 == 0 { 0 } else { 9 }, m & 4 != 0, m & 8 != 0);
            let mut w = w0.clone();
            let mut a = Acct::system(amt);
            if owned {
                a.owner = prog_x();
                a.data = vec![1; 4];
            }
            if amt > 0 {
                w.put(p, a);
            }
            let q = queue(&o.id, idx);
            let mut r = super::life::r_small();
            r.high = high;
            let ix = forward(prog_x(), &ix_request(&p, &q, &r));
            let ixs = if twice { vec![ix.clone(), ix] } else { vec![ix] };
            let o2 = check_tx(&mut w, &ixs, &[p], v);
            st.op(&opname(&ixs), o2.ok);
        },
        |i| format!("payer with {} lamports, variant {}", amounts[i / 16], i % 16),
    )
}

/// queues drained by every mixture of fulfilment and purge
pub fn drain(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let mut w0 = with_oracles(&["oracle-a"]);
    add_queue(&mut w0, "oracle-a", 0, 2000);
    add_queue(&mut w0, "oracle-a", 9, 2000);
    let mut w1 = w0.clone();
    for i in [0, 9] {
        let mut a = w1.get(&queue(&o.id, i)).unwrap().clone();
        a.lamports += 5_000_000_000;
        w1.put(queue(&o.id, i), a);
    }
    let ws = [w0, w1];
    let total = 4 * (1 << n) * (1 << n);
    sweep(
        "fees/drain",
        total,
        dl,
        |i, v, st| {
            let idx = if i & 1 == 0 { 0 } else { 9 };
            let prio = (i >> 2) & ((1 << n) - 1);
            let ful = (i >> 2) >> n;
            let q = queue(&o.id, idx);
            let mut w = ws[i >> 1 & 1].clone();
            let mut go = |w: &mut World, ix: solana_program::instruction::Instruction, s: &[solana_program::pubkey::Pubkey]| {
                let ixs = [ix];
                let o2 = check_tx(w, &ixs, s, v);
                st.op(&opname(&ixs), o2.ok);
                st.states += 1;
            };
            for j in 0..n {
                let mut r = super::life::r_small();
                r.seed = [j as u8; 32];
                r.high = prio >> j & 1 == 1;
                go(&mut w, forward(prog_x(), &ix_request(&payer(), &q, &r)), &[payer()]);
            }
            w.advance(1);
            let mut e = vec![];
            let its = crate::spec::decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default();
            for (j, it) in its.iter().enumerate() {
                if ful >> j & 1 == 1 {
                    go(&mut w, ix_fulfil(o, &q, it), &[o.id]);
                }
            }
            w.advance(240);
            go(&mut w, ix_purge(&o.id, idx), &[mallory()]);
            go(&mut w, ix_close(&o.id, idx), &[o.id]);
        },
        |i| format!("queue {}, priorities {:b}, fulfilled {:b}, the rest purged, then closed", if i & 1 == 0 { 0 } else { 9 }, (i >> 2) & ((1 << n) - 1), (i >> 2) >> n),
    )
}
