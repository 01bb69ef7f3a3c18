//! Callbacks: what they receive, with which privileges, and what happens when they misbehave.
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::{self, check_tx};
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::time::Instant;

fn item(w: &World, q: &Pubkey, n: usize) -> Option<spec::Item> {
    let mut e = vec![];
    spec::decode_queue(w.data(q), &mut e).and_then(|q| q.items.get(n).cloned())
}

/// every discriminator length x account-list length x argument length x priority; in front of, between and behind other
/// requests, after a removal
pub fn shapes(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let (metas, args): (Vec<usize>, Vec<usize>) = if thorough {
        ((0..=20).collect(), (0..=40).chain([63, 64, 100, 127, 128, 255, 256, 257, 300, 511, 512]).collect())
    } else {
        (vec![0, 1, 2, 3, 7, 20], vec![0, 1, 2, 7, 8, 31, 32, 33, 255, 256, 512])
    };
    let mut cases = vec![];
    for d in 0..=8usize {
        for m in 0..=20 {
            for a in &args {
                for high in [false, true] {
                    if metas.contains(&m) || [0, 3, 512].contains(a) && [0, 8].contains(&d) {
                        cases.push((d, m, *a, high));
                    }
                }
            }
        }
    }
    let mut w0 = super::life::world(8000);
    for i in 0..20 {
        w0.put(k(&format!("cb-{i}")), Acct { lamports: 5_000_000, owner: prog_x(), executable: false, data: vec![i] });
    }
    let kk: Vec<Pubkey> = (0..20).map(|i| k(&format!("cb-{i}"))).collect();
    sweep(
        "callback/shapes",
        cases.len(),
        dl,
        |i, v, st| {
            let (d, m, a, high) = cases[i];
            let r = Req {
                seed: [3; 32],
                prog: prog_x(),
                disc: (0..d).map(|x| 0xd0 + x as u8).collect(),
                metas: (0..m).map(|x| (kk[x], x % 2 == 1, x % 3 == 0)).collect(),
                args: (0..a).map(|x| (x * 7 + 1) as u8).collect(),
                high,
            };
            let mut w = w0.clone();
            let mut go = |w: &mut World, ixs: &[Instruction], s: &[Pubkey]| {
                let o = check_tx(w, ixs, s, v);
                st.op(&opname(ixs), o.ok);
                st.states += o.ok as u64;
            };
            for x in [super::life::r_mid(), r.clone(), super::life::r_small()] {
                go(&mut w, &[forward(x.prog, &ix_request(&payer(), &q, &x))], &[payer()]);
            }
            w.advance(1);
            // the middle one, then (after reuse of its place) the same shape again, then everything
            if let Some(it) = item(&w, &q, 1) {
                go(&mut w, &[ix_fulfil(o, &q, &it)], &[o.id]);
            }
            go(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()]);
            w.advance(1);
            while let Some(it) = item(&w, &q, 0) {
                let n = w.clone();
                go(&mut w, &[ix_fulfil(o, &q, &it)], &[o.id]);
                if n.accts == w.accts {
                    break;
                }
            }
        },
        |i| format!("discriminator {} bytes, {} accounts, {} argument bytes, high priority {}", cases[i].0, cases[i].1, cases[i].2, cases[i].3),
    )
}

fn universe(o: &OracleKeys, q: &Pubkey) -> Vec<(&'static str, Pubkey)> {
    vec![
        ("acct-1 (owned by x)", k("acct-1")),
        ("acct-2 (owned by y)", k("acct-2")),
        ("payer", payer()),
        ("mallory", mallory()),
        ("oracle", o.id),
        ("oracle record", record(&o.id)),
        ("queue", *q),
        ("other oracle", oracle("oracle-b").id),
        ("registry", registry()),
        ("vrf identity", vrf_identity()),
        ("identity x", identity_of(&prog_x())),
        ("program x", prog_x()),
        ("vrf program", VRF),
        ("system program", sys_id()),
        ("clock", solana_sdk_ids::sysvar::clock::ID),
        ("slot hashes", SLOT_HASHES),
        ("absent", k("absent")),
        ("default pubkey-like", Pubkey::new_from_array([1; 32])),
    ]
}

/// account identities x requested flags x privileges granted by the fulfilling transaction
pub fn metas(dl: Instant, pairs: bool) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut w0 = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut w0, "oracle-a", 0, 2000);
    w0.put(k("acct-1"), Acct { lamports: 5_000_000, owner: prog_x(), executable: false, data: vec![1, 2, 3] });
    w0.put(k("acct-2"), Acct { lamports: 5_000_000, owner: prog_y(), executable: false, data: vec![1, 2, 3] });
    let uni = universe(o, &q);
    let mut one = vec![];
    for (l, key) in &uni {
        for s in [false, true] {
            for w in [false, true] {
                one.push((format!("{l}{}{}", if s { " signer" } else { "" }, if w { " writable" } else { "" }), (*key, s, w)));
            }
        }
    }
    let mut lists: Vec<(String, Vec<(Pubkey, bool, bool)>)> = one.iter().map(|(l, m)| (l.clone(), vec![*m])).collect();
    if pairs {
        for (la, a) in &one {
            for (lb, b) in &one {
                lists.push((format!("{la}, {lb}"), vec![*a, *b]));
            }
        }
    } else {
        for (la, a) in &one {
            for (lb, b) in one.iter().filter(|x| x.1 .0 == a.0 || x.1 .0 == k("acct-1")) {
                lists.push((format!("{la}, {lb}"), vec![*a, *b]));
                lists.push((format!("{lb}, {la}"), vec![*b, *a]));
            }
        }
        // long lists with the interesting account last
        for (la, a) in &one {
            let mut v: Vec<_> = (0..19).map(|i| (k(&format!("fill-{i}")), false, i % 2 == 0)).collect();
            v.push(*a);
            lists.push((format!("19 others, {la}"), v));
        }
    }
    const VARIANTS: [&str; 9] = [
        "as requested",
        "all writable",
        "all read-only",
        "all signing that can",
        "first one missing",
        "last one missing",
        "reversed, with strangers",
        "identity writable",
        "everything writable and signing",
    ];
    let can_sign = [payer(), mallory(), oracle("oracle-b").id];
    sweep(
        "callback/accounts",
        lists.len() * 2,
        dl,
        |i, v, st| {
            let (list, high) = (&lists[i / 2], i % 2 == 1);
            let mut w = w0.clone();
            let r = Req { seed: [3; 32], prog: prog_x(), disc: vec![9; 8], metas: list.1.clone(), args: vec![1, 2, 3], high };
            let o2 = check_tx(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()], v);
            st.op("request", o2.ok);
            w.advance(1);
            let Some(it) = item(&w, &q, 0) else { return };
            for (n, name) in VARIANTS.iter().enumerate() {
                let mut rest = rest_of(&it);
                let mut signers = vec![o.id];
                match n {
                    1 | 8 => rest.iter_mut().for_each(|m| m.is_writable = true),
                    2 => rest.iter_mut().for_each(|m| m.is_writable = false),
                    4 => {
                        rest.remove(0);
                    }
                    5 => {
                        rest.pop();
                    }
                    6 => {
                        rest.reverse();
                        rest.push(AccountMeta::new(mallory(), false));
                        rest.push(AccountMeta::new_readonly(registry(), false));
                        rest.push(AccountMeta::new(k("acct-2"), false));
                    }
                    _ => {}
                }
                if n == 3 || n == 8 {
                    for m in rest.iter_mut() {
                        if can_sign.contains(&m.pubkey) {
                            m.is_signer = true;
                            signers.push(m.pubkey);
                        }
                    }
                }
                signers.sort();
                signers.dedup();
                let mut ix = ix_provide(&o.id, &q, &it.prog, &it.id, &prove(o, &it.id), &rest);
                if n == 7 || n == 8 {
                    ix.accounts[1].is_writable = true;
                }
                let mut w = w.clone();
                let x = v.len();
                let o3 = check_tx(&mut w, &[ix], &signers, v);
                for y in &mut v[x..] {
                    y.msg = format!("{} (transaction accounts: {name})", y.msg);
                }
                st.op("provide", o3.ok);
                st.states += o3.ok as u64;
            }
        },
        |i| format!("callback accounts [{}], high priority {}", lists[i / 2].0, i % 2 == 1),
    )
}

/// behaviours of the callback program, with other requests pending
pub fn behaviours(dl: Instant) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut w0 = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut w0, "oracle-a", 0, 4000);
    add_queue(&mut w0, "oracle-a", 1, 600);
    for (n, p) in [("acct-1", prog_x()), ("acct-2", prog_y()), ("acct-3", sys_id())] {
        w0.put(k(n), Acct { lamports: 5_000_000, owner: p, executable: false, data: if p == sys_id() { vec![] } else { vec![1, 2, 3] } });
    }
    let all = |w: bool| -> Vec<(Pubkey, bool, bool)> {
        vec![
            (k("acct-1"), true, w),
            (k("acct-2"), false, w),
            (k("acct-3"), false, w),
            (q, false, w),
            (queue(&o.id, 1), false, w),
            (record(&o.id), false, w),
            (registry(), false, w),
            (VRF, false, false),
            (prog_y(), false, false),
            (sys_id(), false, false),
            (SLOT_HASHES, false, false),
            (payer(), true, w),
            (mallory(), true, w),
            (identity_of(&prog_x()), true, false),
            (identity_of(&prog_y()), true, false),
        ]
    };
    let req_y = Req { seed: [8; 32], prog: prog_y(), disc: vec![4; 8], metas: vec![], args: vec![], high: false };
    let req_x = Req { prog: prog_x(), ..req_y.clone() };
    let unsig = |mut ix: Instruction| {
        ix.accounts.iter_mut().for_each(|m| m.is_signer = false);
        ix
    };
    let mut forged = req_y.disc.clone();
    forged.extend([0u8; 32]);
    let mut behs: Vec<(String, Behavior)> = vec![
        ("records".into(), Behavior::Record),
        ("fails".into(), Behavior::Fail),
        ("aborts".into(), Behavior::Abort),
        ("scribbles over its accounts".into(), Behavior::Scribble),
        ("tries to take lamports".into(), Behavior::Steal),
        ("relays the identity to program y".into(), Behavior::Relay { target: prog_y(), data: forged }),
        ("relays the identity to the vrf program".into(), Behavior::Relay { target: VRF, data: vec![7; 9] }),
    ];
    let inner: Vec<(&str, Instruction)> = vec![
        ("purge", ix_purge(&o.id, 0)),
        ("request for x", ix_request(&payer(), &q, &req_x)),
        ("request for y", ix_request(&payer(), &q, &req_y)),
        ("request for y on another queue", ix_request(&payer(), &queue(&o.id, 1), &req_y)),
        ("unsigned request for y", unsig(ix_request(&payer(), &q, &req_y))),
        ("initialize", ix_initialize(&payer())),
        ("close", unsig(ix_close(&o.id, 0))),
        ("provide", unsig(ix_provide(&mallory(), &q, &prog_y(), &[0; 32], &prove(o, &[0; 32]), &[]))),
    ];
    for (l, ix) in &inner {
        behs.push((format!("re-enters with {l}"), Behavior::Reenter(Box::new(ix.clone()))));
    }
    let mut cases = vec![];
    for b in 0..behs.len() {
        for wr in [false, true] {
            for which in 0..3usize {
                for n in [0usize, 1, 3, 15] {
                    cases.push((b, wr, which, n));
                }
            }
        }
    }
    sweep(
        "callback/behaviours",
        cases.len(),
        dl,
        |i, v, st| {
            let (b, wr, which, n) = cases[i];
            let mut w = w0.clone();
            w.set_prog(prog_x(), Prog::Consumer(behs[b].1.clone()));
            let mut metas = all(wr);
            metas.rotate_left(i % 7);
            metas.truncate(n);
            let r = Req { seed: [5; 32], prog: prog_x(), disc: vec![6; 8], metas, args: vec![9; 4], high: wr };
            let ry = Req { seed: [6; 32], ..req_y.clone() };
            let mut order = vec![ry.clone(), Req { seed: [7; 32], high: true, ..ry.clone() }];
            order.insert(which, r);
            for x in &order {
                let o2 = check_tx(&mut w, &[forward(x.prog, &ix_request(&payer(), &q, x))], &[payer()], v);
                st.op("request", o2.ok);
            }
            w.advance(1);
            // the misbehaving one, twice, then the others: they must not be affected
            for pass in 0..2 {
                let _ = pass;
                let mut e = vec![];
                let its = spec::decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default();
                if let Some(it) = its.iter().find(|x| x.prog == prog_x()) {
                    let mut ix = ix_fulfil(o, &q, it);
                    let mut signers = vec![o.id];
                    // privileges an unwary oracle could grant
                    for m in ix.accounts[5..].iter_mut() {
                        if m.pubkey == payer() || m.pubkey == mallory() {
                            m.is_signer = true;
                            signers.push(m.pubkey);
                        }
                    }
                    let o2 = check_tx(&mut w, &[ix], &signers, v);
                    st.op("provide", o2.ok);
                    st.states += o2.ok as u64;
                }
            }
            let mut e = vec![];
            let its = spec::decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default();
            for it in its.iter().filter(|x| x.prog == prog_y()) {
                let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, it)], &[o.id], v);
                st.op("provide", o2.ok);
                st.states += o2.ok as u64;
            }
            w.advance(240);
            let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
            st.op("purge", o2.ok);
        },
        |i| {
            let (b, wr, which, n) = cases[i];
            format!("the callback program {}; request {which} of 3 with {n} accounts, writable {wr}", behs[b].0)
        },
    )
}

/// programs that cannot be called back
pub fn uncallable(dl: Instant) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let w0 = super::life::world(1500);
    let wrong = [prog_x(), prog_y(), VRF, sys_id(), k("absent"), mallory(), k("acct-1")];
    sweep(
        "callback/programs",
        wrong.len() * wrong.len(),
        dl,
        |i, v, st| {
            let (a, b) = (wrong[i / wrong.len()], wrong[i % wrong.len()]);
            let mut w = w0.clone();
            // a request for `a`: consented to by a consumer program of that name, which is then replaced
            w.set_prog(a, Prog::Consumer(Behavior::Record));
            if a == VRF || a == sys_id() || a == mallory() || a == k("acct-1") {
                return;
            }
            for s in [1u8, 2] {
                let r = Req::simple(a, s);
                let o2 = check_tx(&mut w, &[forward(a, &ix_request(&payer(), &q, &r))], &[payer()], v);
                st.op("request", o2.ok);
            }
            w.advance(1);
            if let Some(it) = item(&w, &q, 1) {
                for gone in [false, true] {
                    let mut w = w.clone();
                    if gone {
                        let mut p = (*w.programs).clone();
                        p.remove(&a);
                        w.programs = std::sync::Arc::new(p);
                        w.accts.remove(&a);
                    }
                    let ix = ix_provide(&o.id, &q, &b, &it.id, &prove(o, &it.id), &[AccountMeta::new_readonly(a, false)]);
                    let o2 = check_tx(&mut w, &[ix], &[o.id], v);
                    st.op("provide", o2.ok);
                    let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, &it)], &[o.id], v);
                    st.op("provide", o2.ok);
                }
            }
        },
        |i| format!("request for {}, fulfilled with callback program account {}", wrong[i / wrong.len()], wrong[i % wrong.len()]),
    )
}

/// many consumer programs: their identities have bumps of all kinds
pub fn callers(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let w0 = super::life::world(1500);
    let prog = |i: usize| k(&format!("consumer-{i}"));
    sweep(
        "callback/consumers",
        n,
        dl,
        |i, v, st| {
            let (a, other) = (prog(i), prog(i + 1));
            let mut w = w0.clone();
            w.set_prog(a, Prog::Consumer(Behavior::Record));
            w.set_prog(other, Prog::Consumer(Behavior::Record));
            let regular = Req::simple(a, 1);
            let high = Req { high: true, ..Req::simple(a, 2) };
            for r in [&regular, &high] {
                let ix = ix_request(&payer(), &q, r);
                // without its consent, with another's, with its own
                let o2 = check_tx(&mut w, &[ix.clone()], &[payer()], v);
                st.op("request", o2.ok);
                let o2 = check_tx(&mut w, &[forward(other, &ix)], &[payer()], v);
                st.op("request", o2.ok);
                let o2 = check_tx(&mut w, &[forward(a, &ix)], &[payer()], v);
                st.op("request", o2.ok);
            }
            w.advance(1);
            for _ in 0..2 {
                if let Some(it) = item(&w, &q, 0) {
                    let o2 = check_tx(&mut w, &[ix_provide(&o.id, &q, &other, &it.id, &prove(o, &it.id), &[])], &[o.id], v);
                    st.op("provide", o2.ok);
                    let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, &it)], &[o.id], v);
                    st.op("provide", o2.ok);
                }
            }
            st.states += 10;
        },
        |i| format!("consumer program {}", prog(i)),
    )
}
