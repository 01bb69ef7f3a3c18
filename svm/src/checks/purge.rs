//! Purging: every pattern of expired / fresh requests, priorities and shapes.
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::{self, check_tx};
use crate::world::*;
use std::time::Instant;

/// n requests made at slots chosen among {expired, just expired, at the limit, fresh}, with each priority and alternating shapes, some
/// of them already fulfilled (holes)
pub fn patterns(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let w0 = super::life::world(4000);
    // slots are non-decreasing, so a pattern is a split into 4 age classes; priorities and holes are bit masks
    let ages = [300u64, 241, 240, 0];
    let mut splits = vec![];
    for len in 0..=n {
        for a in 0..=len {
            for b in a..=len {
                for c in b..=len {
                    splits.push((len, a, b, c));
                }
            }
        }
    }
    let mut cases = vec![];
    for s in &splits {
        for prio in 0..(1usize << s.0) {
            for hole in 0..=s.0 {
                cases.push((*s, prio, hole));
            }
        }
    }
    sweep(
        &format!("purge/patterns up to {n} requests"),
        cases.len(),
        dl,
        |i, v, st| {
            let ((len, a, b, c), prio, hole) = cases[i];
            let mut w = w0.clone();
            let base = w.slot + 10;
            let now = base + 300;
            for j in 0..len {
                let age = if j < a { ages[0] } else if j < b { ages[1] } else if j < c { ages[2] } else { ages[3] };
                let s = now - age;
                if w.slot != s {
                    w.set_slot(s, 1_700_000_000 + s as i64, h32(&format!("p{s}")));
                }
                let mut r = match (i + j) % 3 {
                    0 => super::life::r_small(),
                    1 => super::life::r_mid(),
                    _ => super::life::r_big(),
                };
                r.seed = [j as u8; 32];
                r.high = prio >> j & 1 == 1;
                let o2 = check_tx(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()], v);
                st.op("request", o2.ok);
            }
            w.set_slot(now, 1_800_000_000, h32("now"));
            // a hole: one request was fulfilled before
            if hole < len && hole < c {
                let mut e = vec![];
                if let Some(it) = spec::decode_queue(w.data(&q), &mut e).and_then(|x| x.items.get(hole).cloned()) {
                    let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, &it)], &[o.id], v);
                    st.op("provide", o2.ok);
                }
            }
            for _ in 0..2 {
                let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
                st.op("purge", o2.ok);
                st.states += 1;
            }
            // the rest is still served
            let mut e = vec![];
            let its = spec::decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default();
            w.advance(1);
            if let Some(it) = its.last() {
                let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, it)], &[o.id], v);
                st.op("provide", o2.ok);
            }
            let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
            st.op("purge", o2.ok);
        },
        |i| {
            let ((len, a, b, c), prio, hole) = cases[i];
            format!("{len} requests: {a} of age 300, {} of age 241, {} of age 240, {} fresh; priorities {prio:b}; fulfilled before: {hole}", b - a, c - b, len - c)
        },
    )
}

/// queues whose requests are not in slot order, as after a stay on another validator, whose slots differ: every sequence of
/// long expired / just expired / just not expired / not yet reached slots
pub fn unordered(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let w0 = super::life::world(4000);
    const AGES: [i64; 4] = [241, 240, 1_000_000, -500];
    let mut cases = vec![];
    for len in 1..=n {
        let kinds: usize = if len <= 4 { 4 } else { 3 };
        for c in 0..kinds.pow(len as u32) {
            for prio in [0b0101_0110usize, 0b0010_1101] {
                cases.push((len, kinds, c, prio));
            }
        }
    }
    let ages = |(len, kinds, mut c, _): (usize, usize, usize, usize)| -> Vec<i64> {
        (0..len)
            .map(|_| {
                // with three kinds: expired, fresh, not yet reached
                let a = if kinds == 4 { AGES[c % 4] } else { AGES[[0, 1, 3][c % 3]] };
                c /= kinds;
                a
            })
            .collect()
    };
    sweep(
        &format!("purge/any slot order up to {n} requests"),
        cases.len(),
        dl,
        |i, v, st| {
            let mut w = w0.clone();
            let now = 2_000_000u64;
            for (j, age) in ages(cases[i]).iter().enumerate() {
                let s = (now as i64 - age) as u64;
                w.set_slot(s, 1_700_000_000 + s as i64, h32(&format!("p{s}")));
                let mut r = if (i + j) % 2 == 0 { super::life::r_small() } else { super::life::r_mid() };
                r.seed = [j as u8; 32];
                r.high = cases[i].3 >> j & 1 == 1;
                let o2 = check_tx(&mut w, &[forward(r.prog, &ix_request(&payer(), &q, &r))], &[payer()], v);
                st.op("request", o2.ok);
            }
            w.set_slot(now, 1_800_000_000, h32("now"));
            let mut e = vec![];
            let its = spec::decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default();
            // one of them is answered, whatever its slot
            if let Some(it) = its.get(i % 7) {
                let mut w = w.clone();
                for ix in [ix_fulfil(o, &q, it), ix_purge(&o.id, 0)] {
                    let ixs = [ix];
                    let o2 = check_tx(&mut w, &ixs, &[o.id], v);
                    st.op(&opname(&ixs), o2.ok);
                    st.states += 1;
                }
            }
            for _ in 0..2 {
                let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
                st.op("purge", o2.ok);
                st.states += 1;
                w.advance(1);
            }
        },
        |i| format!("requests of ages {:?}, priorities {:b}", ages(cases[i]), cases[i].3),
    )
}

/// long queues: indices beyond 127 / 255
pub fn long(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let size = 24 + 104 * (n as u32 + 2);
    let mut cases = vec![];
    for exp in [0, 1, 2, n / 2, 127, 128, 129, 200, 255, 256, 257, n - 1, n] {
        for hole in [usize::MAX, 0, 127, 128, 255, 256, n - 1] {
            if exp <= n {
                cases.push((exp, hole));
            }
        }
    }
    let now = 1_000_000u64;
    let build = |exp: usize| -> World {
        let mut w = super::life::world(size);
        w.set_slot(now - 241, 1, h32("x"));
        for j in 0..n {
            if j == exp {
                w.set_slot(now - 240, 2, h32("y"));
            }
            let mut r = Req::simple(prog_x(), 0);
            r.seed[..8].copy_from_slice(&(j as u64).to_le_bytes());
            r.high = j % 3 == 0;
            must(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &r))], &[payer()]);
        }
        w.set_slot(now, 3, h32("z"));
        w
    };
    sweep(
        &format!("purge/{n} requests"),
        cases.len(),
        dl,
        |i, v, st| {
            let (exp, hole) = cases[i];
            let mut w = build(exp);
            let mut e = vec![];
            let items = |w: &World, e: &mut Vec<String>| spec::decode_queue(w.data(&q), e).map(|x| x.items).unwrap_or_default();
            if let Some(it) = items(&w, &mut e).get(hole) {
                let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, it)], &[o.id], v);
                st.op("provide", o2.ok);
            }
            let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
            st.op("purge", o2.ok);
            let its = items(&w, &mut e);
            for p in [0usize, 126, 127, 128, 200, 254, 255, 256] {
                if let Some(it) = its.get(p) {
                    let mut w = w.clone();
                    let o2 = check_tx(&mut w, &[ix_fulfil(o, &q, it)], &[o.id], v);
                    st.op("provide", o2.ok);
                }
            }
            w.advance(1);
            let o2 = check_tx(&mut w, &[ix_purge(&o.id, 0)], &[mallory()], v);
            st.op("purge", o2.ok);
            let o2 = check_tx(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &super::life::r_small()))], &[payer()], v);
            st.op("request", o2.ok);
            st.states += 4;
        },
        |i| format!("queue of {n}, the first {} expired, number {} fulfilled before", cases[i].0, cases[i].1),
    )
}
