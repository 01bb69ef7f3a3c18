//! The stored queue against a plain ordered list, directly on `QueueAccount` and through the program.
use crate::engine::*;
use crate::rt::*;
use crate::scen::opname;
use crate::spec::{align8, check_tx, decode_queue, Item};
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use solana_program::pubkey::Pubkey;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Shape(pub usize, pub usize, pub usize);
impl Shape {
    fn bytes(&self) -> usize {
        96 + self.0 + 33 * self.1 + self.2
    }
}
#[derive(Clone)]
pub struct LS {
    /// whole account, discriminator included
    data: Vec<u8>,
    model: Vec<Item>,
    next: u32,
}
#[derive(Clone, Debug)]
pub enum LA {
    Add(Shape),
    Remove(usize),
}
fn fresh(size: usize) -> LS {
    let mut data = vec![0u8; size];
    data[0] = 3;
    LS { data, model: vec![], next: 1 }
}
fn mk(n: u32, s: Shape) -> Item {
    let b = |i: usize, salt: usize| ((n as usize).wrapping_mul(31) + i * 7 + salt) as u8;
    let mut id = h32(&format!("item{n}"));
    id[..4].copy_from_slice(&n.to_be_bytes());
    Item {
        id,
        slot: 1_000_000_007u64.wrapping_mul(n as u64 + 1),
        prog: Pubkey::new_from_array(h32(&format!("prog{n}"))),
        disc: (0..s.0).map(|i| b(i, 1)).collect(),
        metas: (0..s.1)
            .map(|i| (Pubkey::new_from_array(std::array::from_fn(|j| b(i * 32 + j, 2))), (i + n as usize).is_multiple_of(2)))
            .collect(),
        args: (0..s.2).map(|i| b(i, 3)).collect(),
        high: n % 2 == 1,
        end: 0,
    }
}
fn same(a: &Item, b: &Item) -> bool {
    a.id == b.id && a.slot == b.slot && a.prog == b.prog && a.disc == b.disc && a.metas == b.metas && a.args == b.args && a.high == b.high
}
fn show(l: &[Item]) -> String {
    l.iter().map(|i| format!("{}:{}B", u32::from_be_bytes(i.id[..4].try_into().unwrap()), i.bytes())).collect::<Vec<_>>().join(" ")
}

pub fn step(s: &LS, a: &LA, v: &mut Vec<Viol>) -> Step<LS> {
    let mut n = s.clone();
    let cap = s.data.len() - 8;
    let (op, ok) = match a {
        LA::Add(sh) => {
            let it = mk(s.next, *sh);
            let base = api::QueueItem {
                slot: it.slot,
                id: it.id,
                callback_program_id: it.prog.to_bytes(),
                priority_request: it.high as u8,
                ..Default::default()
            };
            let metas: Vec<api::CompactAccountMeta> =
                it.metas.iter().map(|(k, w)| api::CompactAccountMeta { pubkey: k.to_bytes(), is_writable: *w as u8 }).collect();
            let data = &mut n.data;
            let r = no_panic(|| -> Result<usize, String> {
                let mut q = api::QueueAccount::load(&mut data[8..]).map_err(|e| format!("{e:?}"))?;
                q.add_item(&base, &it.disc, &metas, &it.args).map_err(|e| format!("{e:?}"))
            });
            let start = align8(s.model.iter().map(|i| i.end).max().unwrap_or(16));
            let must_ok = start + it.bytes() <= cap && sh.1 <= 20 && sh.2 <= 512 && sh.0 <= 8;
            let live: usize = s.model.iter().map(|i| align8(i.bytes())).sum();
            let must_fail = 16 + live + it.bytes() > cap || sh.1 > 20 || sh.2 > 512;
            match r {
                Err(p) => {
                    v.push(viol(&["C10"], "list-panic", format!("adding {sh:?} panics: {p}")));
                    return Step { next: None, op: "add".into(), ok: false };
                }
                Ok(Ok(i)) => {
                    if must_fail {
                        v.push(viol(&["C10"], "list-overfull", format!("an item of {} bytes was accepted in a {}-byte queue holding [{}] (shape {sh:?})", it.bytes(), s.data.len(), show(&s.model))));
                    }
                    if i != s.model.len() {
                        v.push(viol(&["C10"], "list-index", format!("add_item returned index {i} instead of {}", s.model.len())));
                    }
                    n.model.push(it);
                    n.next += 1;
                    ("add", true)
                }
                Ok(Err(e)) => {
                    if must_ok {
                        v.push(viol(&["C10"], "list-rejects", format!("an item of {} bytes that fits in the free tail of a {}-byte queue holding [{}] was rejected: {e}", it.bytes(), s.data.len(), show(&s.model))));
                    }
                    ("add", false)
                }
            }
        }
        LA::Remove(i) => {
            let data = &mut n.data;
            let r = no_panic(|| -> Result<api::QueueItem, String> {
                let mut q = api::QueueAccount::load(&mut data[8..]).map_err(|e| format!("{e:?}"))?;
                q.remove_item(*i).map_err(|e| format!("{e:?}"))
            });
            match r {
                Err(p) => {
                    v.push(viol(&["C10"], "list-panic", format!("removing {i} panics: {p}")));
                    return Step { next: None, op: "remove".into(), ok: false };
                }
                Ok(Ok(x)) => {
                    if *i >= s.model.len() {
                        v.push(viol(&["C10"], "list-remove", format!("removing index {i} of {} succeeded", s.model.len())));
                    } else {
                        let m = n.model.remove(*i);
                        if x.id != m.id || x.slot != m.slot || x.callback_program_id != m.prog.to_bytes() || (x.priority_request == 1) != m.high {
                            v.push(viol(&["C10"], "list-remove", format!("removing index {i} returned another item ([{}])", show(&s.model))));
                        }
                        // the removed item's data is still readable for the caller, as the program relies on
                        let d = &n.data[8..];
                        let metas: Vec<(Pubkey, bool)> =
                            x.account_metas(d).iter().map(|m| (Pubkey::new_from_array(m.pubkey), m.is_writable != 0)).collect();
                        if x.callback_discriminator(d) != m.disc || metas != m.metas || x.callback_args(d) != m.args {
                            v.push(viol(&["C10", "C02"], "list-removed-data", format!("the data of removed item {i} of [{}] is not what was stored", show(&s.model))));
                        }
                    }
                    ("remove", true)
                }
                Ok(Err(e)) => {
                    if *i < s.model.len() {
                        v.push(viol(&["C10"], "list-remove", format!("removing index {i} of {} failed: {e}", s.model.len())));
                    }
                    ("remove", false)
                }
            }
        }
    };
    check(&mut n, v);
    Step { next: Some(n), op: op.into(), ok }
}

fn check(n: &mut LS, v: &mut Vec<Viol>) {
    let mut errs = vec![];
    let d = decode_queue(&n.data, &mut errs);
    for e in errs {
        v.push(viol(&["C10"], "list-inconsistent", format!("[{}]: {e}", show(&n.model))));
    }
    let Some(q) = d else { return };
    if q.items.len() != n.model.len() || !q.items.iter().zip(&n.model).all(|(a, b)| same(a, b)) {
        v.push(viol(&["C10"], "list-contents", format!("the queue holds [{}] instead of [{}]", show(&q.items), show(&n.model))));
        return;
    }
    for (m, x) in n.model.iter_mut().zip(&q.items) {
        m.end = x.end;
    }
    if n.model.iter().any(|m| m.end > n.data.len() - 8) {
        v.push(viol(&["C10"], "list-bounds", "an item extends beyond the account".to_string()));
    }
    let mut data = n.data.clone();
    if let Ok(q) = api::QueueAccount::load(&mut data[8..]) {
        if q.find_item_by_id(&[0xee; 32]).is_some() {
            v.push(viol(&["C10"], "list-find", "an absent id was found".to_string()));
        }
    }
    let mut e2 = vec![];
    let q2 = decode_queue(&data, &mut e2);
    if q2.map(|x| x.items.len()) != Some(n.model.len()) {
        v.push(viol(&["C10"], "list-reload", "the queue changes when it is loaded again".to_string()));
    }
}

pub struct List {
    pub name: String,
    pub sizes: Vec<usize>,
    pub shapes: Vec<Shape>,
    pub depth: usize,
}
impl Scenario for List {
    type S = LS;
    type A = LA;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn depth(&self) -> usize {
        self.depth
    }
    fn max_states(&self) -> usize {
        6_000_000
    }
    fn init(&self) -> Vec<(String, LS)> {
        self.sizes.iter().map(|s| (format!("account of {s} bytes"), fresh(*s))).collect()
    }
    fn actions(&self, s: &LS) -> Vec<LA> {
        let mut v: Vec<LA> = self.shapes.iter().map(|x| LA::Add(*x)).collect();
        v.extend((0..=s.model.len()).map(LA::Remove));
        v
    }
    fn step(&self, s: &LS, a: &LA, v: &mut Vec<Viol>) -> Step<LS> {
        step(s, a, v)
    }
    fn key(&self, s: &LS) -> u128 {
        digest(&[&s.data, &s.next.to_le_bytes()])
    }
    fn label(&self, a: &LA) -> String {
        format!("{a:?}")
    }
}

pub fn small(depth: usize) -> List {
    List {
        name: "list/small items".into(),
        sizes: vec![24, 119, 120, 121, 128, 216, 217, 224, 225, 228, 232, 320, 336, 400, 432, 440, 544, 600],
        shapes: vec![Shape(0, 0, 0), Shape(8, 0, 0), Shape(3, 1, 5), Shape(8, 2, 60)],
        depth,
    }
}
pub fn tails(depth: usize, step: usize) -> List {
    List {
        name: "list/every account size".into(),
        sizes: (24..=500).step_by(step).collect(),
        shapes: vec![Shape(1, 0, 0), Shape(8, 1, 7)],
        depth,
    }
}
pub fn large(depth: usize) -> List {
    List {
        name: "list/large items and limits".into(),
        sizes: vec![1300, 1299, 1301, 2600, 5000, 70_000, 140_000],
        shapes: vec![Shape(8, 20, 512), Shape(8, 21, 0), Shape(0, 0, 513), Shape(9, 0, 0), Shape(0, 20, 0), Shape(0, 0, 512), Shape(5, 3, 255), Shape(5, 7, 256)],
        depth,
    }
}

/// many items: offsets, counts and indices beyond 8 / 16 bits
pub fn many(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let mut cases: Vec<(usize, Shape)> =
        vec![(300, Shape(0, 0, 0)), (300, Shape(8, 1, 3)), (120, Shape(8, 20, 512)), (700, Shape(8, 0, 0)), (1100, Shape(4, 1, 31))];
    if thorough {
        cases.extend([(4000, Shape(8, 2, 60)), (66_000, Shape(0, 0, 0)), (8_000, Shape(8, 20, 512))]);
    }
    sweep(
        "list/many items",
        cases.len(),
        dl,
        |i, v, st| {
            let (n, sh) = cases[i];
            let size = 24 + n * align8(sh.bytes());
            let mut s = fresh(size);
            let mut data = std::mem::take(&mut s.data);
            let items: Vec<Item> = (0..n as u32).map(|x| mk(x, sh)).collect();
            // fill without checking after each step
            let r = no_panic(|| {
                let mut q = api::QueueAccount::load(&mut data[8..]).unwrap();
                for it in &items {
                    let metas: Vec<api::CompactAccountMeta> =
                        it.metas.iter().map(|(k, w)| api::CompactAccountMeta { pubkey: k.to_bytes(), is_writable: *w as u8 }).collect();
                    let base = api::QueueItem {
                        slot: it.slot,
                        id: it.id,
                        callback_program_id: it.prog.to_bytes(),
                        priority_request: it.high as u8,
                        ..Default::default()
                    };
                    if let Err(e) = q.add_item(&base, &it.disc, &metas, &it.args) {
                        return Err(format!("{e:?}"));
                    }
                }
                Ok(())
            });
            if r != Ok(Ok(())) {
                v.push(viol(&["C10"], "list-rejects", format!("{n} items of {} bytes do not fit in {size} bytes: {r:?}", sh.bytes())));
                return;
            }
            s.data = data;
            s.model = items;
            s.next = n as u32;
            check(&mut s, v);
            st.op("add", true);
            if n > 5000 {
                return;
            }
            let mut at: Vec<usize> = vec![0, 1, 100, 126, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, n / 2, n - 2, n - 1];
            at.retain(|x| *x < n);
            at.sort();
            at.dedup();
            for p in at {
                let mut t = s.clone();
                let id = t.model[p].id;
                let mut d = t.data.clone();
                let f = api::QueueAccount::load(&mut d[8..]).unwrap();
                if f.find_item_by_id(&id).map(|x| x.0) != Some(p) || f.get_item_by_index(p).map(|x| x.id) != Some(id) {
                    v.push(viol(&["C10"], "list-find", format!("item {p} of {n} is not found by id or by position")));
                }
                for a in [LA::Remove(p), LA::Add(sh), LA::Remove(p.min(n - 2)), LA::Remove(0), LA::Add(Shape(0, 0, 0))] {
                    let r = step(&t, &a, v);
                    st.op(&r.op, r.ok);
                    st.states += 1;
                    match r.next {
                        Some(x) => t = x,
                        None => return,
                    }
                }
            }
        },
        |i| format!("{} items of shape {:?}", cases[i].0, cases[i].1),
    )
}

/// limits and exact fit through the program
pub fn limits(dl: Instant) -> (Stats, Vec<Found>) {
    let o = oracle("oracle-a");
    let q = queue(&o.id, 0);
    let mut cases: Vec<(usize, usize, usize, i64)> = vec![];
    for d in [0usize, 1, 7, 8, 9, 10, 255, 256, 257, 300] {
        for m in [0usize, 1, 19, 20, 21, 22] {
            for a in [0usize, 1, 511, 512, 513, 600] {
                cases.push((d, m, a, i64::MAX));
            }
        }
    }
    for d in 0..=9usize {
        for m in [0usize, 1, 3, 20] {
            for a in [0usize, 5, 8, 511, 512] {
                for slack in [-9i64, -8, -7, -1, 0, 1, 7, 8] {
                    cases.push((d, m, a, slack));
                }
            }
        }
    }
    let w0 = with_oracles(&["oracle-a"]);
    sweep(
        "list/limits through the program",
        cases.len() * 2,
        dl,
        |i, v, st| {
            let ((d, m, a, slack), second) = (cases[i / 2], i % 2 == 1);
            let r = Req {
                seed: [3; 32],
                prog: prog_x(),
                disc: vec![7; d],
                metas: (0..m).map(|x| (k(&format!("m{x}")), false, false)).collect(),
                args: vec![5; a],
                high: false,
            };
            let first = if second { align8(super::life::r_mid().bytes()) } else { 0 };
            let size = if slack == i64::MAX { 4000 } else { (24 + first + r.bytes()) as i64 + slack };
            let mut w = w0.clone();
            let mut go = |w: &mut World, ix: solana_program::instruction::Instruction, s: &[Pubkey]| {
                let ixs = [ix];
                let o2 = check_tx(w, &ixs, s, v);
                st.op(&opname(&ixs), o2.ok);
                st.states += o2.ok as u64;
            };
            go(&mut w, ix_init_queue(&o.id, &o.id, 0, size as u32), &[o.id]);
            if second {
                go(&mut w, forward(prog_y(), &ix_request(&payer(), &q, &super::life::r_mid())), &[payer()]);
            }
            for _ in 0..2 {
                go(&mut w, forward(prog_x(), &ix_request(&payer(), &q, &r)), &[payer()]);
            }
            // drain and refill: the capacity is back
            w.advance(1);
            let mut e = vec![];
            for it in decode_queue(w.data(&q), &mut e).map(|x| x.items).unwrap_or_default() {
                go(&mut w, crate::scen::ix_fulfil(o, &q, &it), &[o.id]);
            }
            if second {
                go(&mut w, forward(prog_y(), &ix_request(&payer(), &q, &super::life::r_mid())), &[payer()]);
            }
            go(&mut w, forward(prog_x(), &ix_request(&payer(), &q, &r)), &[payer()]);
        },
        |i| {
            let ((d, m, a, s), second) = (cases[i / 2], i % 2 == 1);
            format!("discriminator {d}, {m} accounts, {a} argument bytes, account size {}, second item {second}", if s == i64::MAX { "ample".into() } else { format!("exact fit {s:+}") })
        },
    )
}
