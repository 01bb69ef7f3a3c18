//! Reference semantics.  `Abs` is the abstract state of the world (requests as plain lists, oracle records, registry);
//! `predict` says, for a transaction in a state, whether it must succeed, must be rejected, or may do either, and what
//! the abstract state and the callback calls must be if it succeeds.  `check_tx` executes the transaction on the real
//! program in the mini-SVM and compares.
use crate::dlp;
use crate::engine::{viol, Viol};
use crate::rt::*;
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Item {
    pub id: [u8; 32],
    pub slot: u64,
    pub prog: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, bool)>,
    pub args: Vec<u8>,
    pub high: bool,
    /// end of the item's bytes in the account (after the discriminator)
    pub end: usize,
}
impl Item {
    pub fn bytes(&self) -> usize {
        96 + self.disc.len() + 33 * self.metas.len() + self.args.len()
    }
    pub fn fee(&self) -> u64 {
        if self.high {
            800_000
        } else {
            500_000
        }
    }
    fn same(&self, o: &Item) -> bool {
        self.id == o.id
            && self.slot == o.slot
            && self.prog == o.prog
            && self.disc == o.disc
            && self.metas == o.metas
            && self.args == o.args
            && self.high == o.high
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Q {
    pub size: usize,
    pub index: u8,
    pub items: Vec<Item>,
}
impl Q {
    pub fn fees(&self) -> u64 {
        self.items.iter().map(|i| i.fee()).sum()
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Content {
    Raw(Vec<u8>),
    Registry(Vec<Pubkey>),
    Oracle { pk: [u8; 32], reg: u64, open: u64 },
    Queue(Q),
    /// program-owned, all zero
    Alloc(usize),
    Any,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct AA {
    pub lamports: u64,
    pub owner: Pubkey,
    pub content: Content,
}
pub type Abs = BTreeMap<Pubkey, AA>;

pub fn align8(x: usize) -> usize {
    (x + 7) & !7
}

/// Decode queue bytes (with discriminator) through the repository's public view.
pub fn decode_queue(data: &[u8], errs: &mut Vec<String>) -> Option<Q> {
    let mut buf = data.to_vec();
    let size = buf.len();
    let r = no_panic(|| -> Result<(Q, Vec<String>), String> {
        let mut e = vec![];
        let q = api::QueueAccount::load(&mut buf[8..]).map_err(|x| format!("{x:?}"))?;
        let its: Vec<api::QueueItem> = q.iter_items().collect();
        let mut items = vec![];
        for it in &its {
            let metas: Vec<(Pubkey, bool)> =
                it.account_metas(q.acc).iter().map(|m| (Pubkey::new_from_array(m.pubkey), m.is_writable != 0)).collect();
            let disc = it.callback_discriminator(q.acc).to_vec();
            let args = it.callback_args(q.acc).to_vec();
            let end = [
                it.callback_discriminator_offset as usize + disc.len(),
                it.metas_offset as usize + 33 * metas.len(),
                it.args_offset as usize + args.len(),
            ]
            .into_iter()
            .max()
            .unwrap();
            items.push(Item {
                id: it.id,
                slot: it.slot,
                prog: Pubkey::new_from_array(it.callback_program_id),
                disc,
                metas,
                args,
                high: it.priority_request != 0,
                end,
            });
        }
        if q.len() != items.len() {
            e.push(format!("len() is {} but {} items are stored", q.len(), items.len()));
        }
        if q.is_empty() != items.is_empty() {
            e.push("is_empty() disagrees with the stored items".into());
        }
        if items.len() <= 12 {
            for (n, it) in its.iter().enumerate() {
                match q.get_item_by_index(n) {
                    Some(x) if x == *it => {}
                    _ => e.push(format!("get_item_by_index({n}) disagrees with iteration")),
                }
                match q.find_item_by_id(&it.id) {
                    Some((i, x)) if i == n && x == *it => {}
                    Some((i, _)) if i < n && its[i].id == it.id => {}
                    _ => e.push(format!("find_item_by_id(item {n}) disagrees with iteration")),
                }
            }
            if q.get_item_by_index(items.len()).is_some() {
                e.push("get_item_by_index(len) finds an item".into());
            }
        }
        Ok((Q { size, index: q.header.index, items }, e))
    });
    match r {
        Ok(Ok((q, e))) => {
            errs.extend(e);
            Some(q)
        }
        Ok(Err(e)) => {
            errs.push(format!("queue cannot be loaded: {e}"));
            None
        }
        Err(e) => {
            errs.push(format!("queue view panics: {e}"));
            None
        }
    }
}

fn content(owner: &Pubkey, data: &[u8], errs: &mut Vec<String>) -> Content {
    if *owner == VRF || *owner == dlp::ID {
        if !data.is_empty() && data.iter().all(|b| *b == 0) {
            // an empty registry is 12 zero bytes; unfinished queues are handled by the caller (by address)
            return Content::Alloc(data.len());
        }
        if data.len() >= 20 && data[..8] == [3, 0, 0, 0, 0, 0, 0, 0] {
            if let Some(q) = decode_queue(data, errs) {
                return Content::Queue(q);
            }
        }
        if *owner == VRF && data.len() == 56 && data[..8] == [1, 0, 0, 0, 0, 0, 0, 0] {
            return Content::Oracle {
                pk: data[8..40].try_into().unwrap(),
                reg: u64::from_le_bytes(data[40..48].try_into().unwrap()),
                open: u64::from_le_bytes(data[48..56].try_into().unwrap()),
            };
        }
    }
    Content::Raw(data.to_vec())
}

fn decode_registry(data: &[u8]) -> Option<Vec<Pubkey>> {
    if data.len() < 12 || data[..8] != [0; 8] {
        return None;
    }
    let n = u32::from_le_bytes(data[8..12].try_into().unwrap()) as usize;
    if data.len() != 12 + 32 * n {
        return None;
    }
    Some(data[12..].chunks(32).map(|c| Pubkey::new_from_array(c.try_into().unwrap())).collect())
}

/// Abstraction function.  `errs` collects internal inconsistencies of the stored queues.
pub fn alpha(w: &World, errs: &mut Vec<String>) -> Abs {
    let mut out = Abs::new();
    for (k, a) in &w.accts {
        if a.executable || *k == SLOT_HASHES {
            continue;
        }
        let c = if *k == registry() && a.owner == VRF {
            match decode_registry(&a.data) {
                Some(v) => Content::Registry(v),
                None => Content::Raw(a.data.clone()),
            }
        } else {
            content(&a.owner, &a.data, errs)
        };
        out.insert(*k, AA { lamports: a.lamports, owner: a.owner, content: c });
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Acc,
    May,
    Rej(&'static str, &'static [&'static str]),
}
use V::*;

#[derive(Clone, Debug)]
pub struct ExpCall {
    pub prog: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub abs: Abs,
    pub calls: Vec<ExpCall>,
    /// (authority, queue) handed to the magic program
    pub magic: Vec<(Pubkey, Pubkey)>,
    /// accounts whose content/lamports are unconstrained (apart from conservation)
    pub free: BTreeSet<Pubkey>,
    /// queue -> new item appended with unknown id
    pub new_items: Vec<Pubkey>,
    pub ops: Vec<&'static str>,
    /// a request like one that is pending since the same slot
    pub again: bool,
}
struct Cx<'a> {
    w: &'a World,
    /// programs already on the stack
    stack: Vec<Pubkey>,
    signers: &'a [Pubkey],
    writable: BTreeMap<Pubkey, bool>,
    extra_signers: Vec<Pubkey>,
}
impl Cx<'_> {
    fn s(&self, k: &Pubkey) -> bool {
        self.signers.contains(k) || self.extra_signers.contains(k)
    }
    fn wr(&self, k: &Pubkey) -> bool {
        *self.writable.get(k).unwrap_or(&false)
    }
}

pub fn default_queue() -> Pubkey {
    api::DEFAULT_EPHEMERAL_QUEUE
}

pub fn predict(w: &World, pre: &Abs, ixs: &[Instruction], signers: &[Pubkey]) -> (V, Pred) {
    let mut writable = BTreeMap::new();
    for ix in ixs {
        for m in &ix.accounts {
            *writable.entry(m.pubkey).or_insert(false) |= m.is_writable;
        }
        writable.entry(ix.program_id).or_insert(false);
    }
    for (k, x) in writable.iter_mut() {
        let ro = ixs.iter().any(|i| i.program_id == *k)
            || *k == sys_id()
            || *k == SLOT_HASHES
            || *k == solana_sdk_ids::sysvar::clock::ID
            || *k == solana_sdk_ids::sysvar::rent::ID
            || *k == solana_sdk_ids::sysvar::stake_history::ID
            || *k == solana_sdk_ids::sysvar::instructions::ID;
        if ro {
            *x = false
        }
    }
    let mut p = Pred { abs: pre.clone(), ..Default::default() };
    for ix in ixs {
        for m in &ix.accounts {
            if m.is_signer && !signers.contains(&m.pubkey) {
                return (Rej("missing signature", &["C03", "C09", "C11"]), p);
            }
        }
    }
    let mut cx = Cx { w, stack: vec![], signers, writable, extra_signers: vec![] };
    let mut may = false;
    for ix in ixs {
        let v = if w.programs.get(&ix.program_id) == Some(&Prog::Vrf) && ix.program_id != VRF {
            p.ops.push("foreign");
            Rej("called under a foreign program id", &["C15"])
        } else if w.programs.get(&ix.program_id) == Some(&Prog::Vrf) {
            apply(&cx, &mut p, ix)
        } else if let (Some(Prog::Consumer(_)), true) =
            (w.programs.get(&ix.program_id), ix.data.len() >= 44 && ix.data[..8] == FORWARD)
        {
            // the consumer executes the wrapped instruction, signing with its identity
            let inner = unwrap_forward(ix);
            if w.programs.get(&inner.program_id) != Some(&Prog::Vrf) {
                May
            } else {
                cx.extra_signers = vec![identity_of(&ix.program_id)];
                // privileges cannot be escalated over the outer instruction
                let mut esc = false;
                for m in &inner.accounts {
                    let o: Vec<_> = ix.accounts.iter().filter(|x| x.pubkey == m.pubkey).collect();
                    if o.is_empty() || (m.is_writable && !cx.wr(&m.pubkey)) || (m.is_signer && !cx.s(&m.pubkey)) {
                        esc = true
                    }
                }
                let saved = cx.writable.clone();
                // flags inside the CPI are those of the inner instruction
                let mut fl: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
                for m in &inner.accounts {
                    let e = fl.entry(m.pubkey).or_default();
                    e.0 |= m.is_signer;
                    e.1 |= m.is_writable;
                }
                for (k, (_, x)) in &fl {
                    cx.writable.insert(*k, *x);
                }
                let sg: Vec<Pubkey> = fl.iter().filter(|(_, f)| f.0).map(|(k, _)| *k).collect();
                let cx2 = Cx { w, stack: vec![ix.program_id], signers: &sg, writable: cx.writable.clone(), extra_signers: vec![] };
                let v = if esc {
                    Rej("privilege escalation", &["C09", "C11"])
                } else if inner.program_id != VRF {
                    Rej("called under a foreign program id", &["C15"])
                } else {
                    apply(&cx2, &mut p, &inner)
                };
                cx.writable = saved;
                cx.extra_signers = vec![];
                v
            }
        } else if ix.program_id == dlp::ID && ix.data.first() == Some(&dlp::TAG_UNDELEGATE) {
            dlp_undelegate(&cx, &mut p, ix)
        } else if ix.program_id == sys_id() && ix.data.len() == 12 && ix.data[0] == 2 {
            let amt = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
            p.ops.push("transfer");
            transfer(&cx, &mut p, ix.accounts[0].pubkey, ix.accounts[1].pubkey, amt)
        } else {
            p.ops.push("other");
            May
        };
        match v {
            Acc => {}
            May => may = true,
            Rej(..) => return (v, p),
        }
    }
    // rent state of touched accounts
    if !w.no_rent {
        for (k, a) in &p.abs {
            if a.lamports > 0 && a.lamports < rent(0) && cx.wr(k) && pre.get(k).map(|x| x.lamports) != Some(a.lamports) {
                may = true;
            }
        }
    }
    p.abs.retain(|_, a| a.lamports > 0);
    (if may { May } else { Acc }, p)
}

fn unwrap_forward(ix: &Instruction) -> Instruction {
    let d = &ix.data;
    let pid = Pubkey::new_from_array(d[8..40].try_into().unwrap());
    let n = u32::from_le_bytes(d[40..44].try_into().unwrap()) as usize;
    let mut o = 44;
    let mut accounts = vec![];
    for _ in 0..n {
        accounts.push(solana_program::instruction::AccountMeta {
            pubkey: Pubkey::new_from_array(d[o..o + 32].try_into().unwrap()),
            is_signer: d[o + 32] != 0,
            is_writable: d[o + 33] != 0,
        });
        o += 34;
    }
    Instruction { program_id: pid, accounts, data: d[o..].to_vec() }
}

fn get<'a>(p: &'a Pred, k: &Pubkey) -> Option<&'a AA> {
    p.abs.get(k)
}
fn owned_data_empty(p: &Pred, k: &Pubkey) -> bool {
    match get(p, k) {
        None => true,
        Some(a) => a.owner == sys_id() && a.content == Content::Raw(vec![]),
    }
}
fn add(p: &mut Pred, k: Pubkey, v: i128) {
    let e = p.abs.entry(k).or_insert(AA { lamports: 0, owner: sys_id(), content: Content::Raw(vec![]) });
    e.lamports = (e.lamports as i128 + v) as u64;
}
fn lam(p: &Pred, k: &Pubkey) -> u64 {
    get(p, k).map(|a| a.lamports).unwrap_or(0)
}
fn transfer(cx: &Cx, p: &mut Pred, from: Pubkey, to: Pubkey, amt: u64) -> V {
    if !cx.s(&from) {
        return Rej("payer signature", &["C09", "C06"]);
    }
    if !cx.wr(&from) || !cx.wr(&to) {
        return Rej("read-only payer", &["C06", "C11"]);
    }
    if !owned_data_empty(p, &from) {
        return Rej("payer is not a system account", &["C06", "C11"]);
    }
    if lam(p, &from) < amt {
        return Rej("insufficient funds", &["C06"]);
    }
    add(p, from, -(amt as i128));
    add(p, to, amt as i128);
    Acc
}

macro_rules! req {
    ($c:expr, $why:expr, $props:expr) => {
        if !($c) {
            return Rej($why, $props);
        }
    };
}

fn apply(cx: &Cx, p: &mut Pred, ix: &Instruction) -> V {
    if ix.data.len() < 8 {
        p.ops.push("malformed");
        return Rej("short instruction", &["C15"]);
    }
    let padded = ix.data[1..8].iter().any(|b| *b != 0);
    let d = &ix.data[8..];
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let v = match ix.data[0] {
        0 => initialize(cx, p, &a, d),
        1 => modify(cx, p, &a, d),
        2 => init_queue(cx, p, &a, d),
        3 => request(cx, p, &a, d, true),
        8 => request(cx, p, &a, d, false),
        4 => provide(cx, p, &a, d),
        5 => delegate(cx, p, &a, d),
        6 => undelegate(cx, p, &a, d),
        7 => close(cx, p, &a, d),
        9 => purge(cx, p, &a, d),
        196 => {
            p.ops.push("process_undelegation");
            // only the delegation program can drive this entry point (its PDA must sign)
            Rej("undelegation not driven by the delegation program", &["C14", "C11"])
        }
        _ => {
            p.ops.push("malformed");
            Rej("unknown tag", &["C15"])
        }
    };
    if padded && v == Acc {
        return May;
    }
    v
}

fn accts(a: &[Pubkey], n: usize) -> Option<V> {
    if a.len() < n {
        Some(Rej("too few accounts", &["C11", "C15"]))
    } else {
        None
    }
}
/// more accounts than documented: tolerated either way
fn lax(v: V, a: &[Pubkey], n: usize) -> V {
    if v == Acc && a.len() > n {
        May
    } else {
        v
    }
}

/// allocation of a program account at a PDA: `funds` must allow it
fn fund(cx: &Cx, p: &mut Pred, payer: Pubkey, target: Pubkey, need: u64, sys: Pubkey) -> V {
    req!(sys == sys_id(), "system program", &["C11"]);
    let have = lam(p, &target);
    if have < need {
        transfer(cx, p, payer, target, need - have)
    } else {
        Acc
    }
}

fn initialize(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("initialize");
    if let Some(v) = accts(a, 3) {
        return v;
    }
    req!(cx.s(&a[0]), "signer", &["C12", "C11"]);
    req!(a[1] == registry(), "registry address", &["C12", "C11"]);
    req!(cx.wr(&a[1]), "registry read-only", &["C12", "C11"]);
    req!(owned_data_empty(p, &a[1]), "already initialised", &["C12", "C11"]);
    match fund(cx, p, a[0], a[1], rent(12), a[2]) {
        Acc => {}
        v => return v,
    }
    let l = lam(p, &a[1]);
    p.abs.insert(a[1], AA { lamports: l, owner: VRF, content: Content::Registry(vec![]) });
    if !d.is_empty() {
        return May;
    }
    lax(Acc, a, 3)
}

pub fn on_curve(k: &Pubkey) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(k.to_bytes()).decompress().is_some()
}

fn modify(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("modify_oracle");
    req!(d.len() == 65, "payload size", &["C15"]);
    let id = Pubkey::new_from_array(d[..32].try_into().unwrap());
    let pk: [u8; 32] = d[32..64].try_into().unwrap();
    let op = d[64];
    req!(id != Pubkey::default() && on_curve(&id), "invalid identity", &["C12"]);
    if let Some(v) = accts(a, 5) {
        return v;
    }
    req!(cx.s(&a[0]), "admin signature", &["C12"]);
    req!(a[3] == program_data(), "program data address", &["C12", "C11"]);
    let auth = authority(cx.w.data(&a[3]));
    req!(auth == Some(a[0]), "not the upgrade authority", &["C12"]);
    req!(a[1] == registry() && cx.wr(&a[1]), "registry account", &["C12", "C11"]);
    req!(a[2] == record(&id) && cx.wr(&a[2]), "oracle record account", &["C12", "C11"]);
    let Some(AA { content: Content::Registry(list), owner, .. }) = get(p, &a[1]).cloned() else {
        return Rej("registry not initialised", &["C12", "C11"]);
    };
    req!(owner == VRF, "registry owner", &["C12", "C11"]);
    let mut list = list;
    match op {
        0 => {
            req!(owned_data_empty(p, &a[2]), "oracle already registered", &["C12"]);
            match fund(cx, p, a[0], a[2], rent(56), a[4]) {
                Acc => {}
                v => return v,
            }
            let l = lam(p, &a[2]);
            p.abs.insert(
                a[2],
                AA { lamports: l, owner: VRF, content: Content::Oracle { pk, reg: cx.w.slot, open: 0 } },
            );
            list.push(id);
        }
        1 => {
            let Some(AA { content: Content::Oracle { open, .. }, lamports, .. }) = get(p, &a[2]).cloned() else {
                return Rej("oracle not registered", &["C12"]);
            };
            req!(open == 0, "oracle has open queues", &["C12", "C13"]);
            req!(cx.wr(&a[0]), "admin read-only", &["C11"]);
            list.retain(|x| *x != id);
            p.abs.remove(&a[2]);
            add(p, a[0], lamports as i128);
        }
        _ => return Rej("unknown operation", &["C12", "C15"]),
    }
    // the registry holds exactly its rent; the difference moves between it and the admin
    let need = rent(12 + 32 * list.len());
    let have = lam(p, &a[1]);
    if have < need {
        match fund(cx, p, a[0], a[1], need, a[4]) {
            Acc => {}
            v => return v,
        }
    } else {
        if have > need {
            req!(cx.wr(&a[0]), "admin read-only", &["C11"]);
        }
        add(p, a[1], -((have - need) as i128));
        add(p, a[0], (have - need) as i128);
    }
    p.abs.get_mut(&a[1]).unwrap().content = Content::Registry(list);
    lax(Acc, a, 5)
}

pub fn authority(pd: &[u8]) -> Option<Pubkey> {
    if pd.len() < 45 || pd[..4] != [3, 0, 0, 0] || pd[12] != 1 {
        return None;
    }
    Some(Pubkey::new_from_array(pd[13..45].try_into().unwrap()))
}

fn oracle_rec(p: &Pred, k: &Pubkey, id: &Pubkey) -> Option<([u8; 32], u64, u64)> {
    if *k != record(id) {
        return None;
    }
    match get(p, k) {
        Some(AA { owner, content: Content::Oracle { pk, reg, open }, .. }) if *owner == VRF => Some((*pk, *reg, *open)),
        _ => None,
    }
}

fn init_queue(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("init_queue");
    req!(d.len() == 8, "payload size", &["C15"]);
    let target = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let idx = d[4];
    if let Some(v) = accts(a, 5) {
        return v;
    }
    req!(cx.s(&a[0]), "payer signature", &["C13"]);
    req!(cx.s(&a[1]), "oracle signature", &["C13"]);
    let Some((_, reg, _)) = oracle_rec(p, &a[2], &a[1]) else {
        return Rej("not the oracle's record", &["C13", "C11"]);
    };
    req!(a[3] == queue(&a[1], idx) && cx.wr(&a[3]), "queue address", &["C13", "C11"]);
    req!(cx.w.slot.saturating_sub(reg) >= 200, "registered less than 200 slots ago", &["C13"]);
    let cur = match get(p, &a[3]) {
        None => None,
        Some(AA { owner, content, .. }) => match content {
            Content::Raw(v) if v.is_empty() && *owner == sys_id() => None,
            Content::Alloc(n) if *owner == VRF => Some(*n),
            _ => return Rej("queue already in use", &["C13", "C11", "C14"]),
        },
    };
    let cur_len = cur.unwrap_or(0);
    let partial = target.saturating_sub(cur_len) > 10_240;
    let new = if partial { cur_len + 10_240 } else { target };
    req!(new >= 20, "queue too small", &["C13"]);
    req!(new <= 10 * 1024 * 1024, "queue too large", &["C13"]);
    let need = rent(new);
    let have = lam(p, &a[3]);
    if have < need {
        match fund(cx, p, a[0], a[3], need, a[4]) {
            Acc => {}
            v => return v,
        }
    } else {
        req!(a[4] == sys_id() || cur.is_some(), "system program", &["C11"]);
        // surplus may be kept by the queue or returned to the payer
        if have > need {
            p.free.insert(a[3]);
            p.free.insert(a[0]);
        }
    }
    let l = lam(p, &a[3]);
    if partial {
        p.abs.insert(a[3], AA { lamports: l, owner: VRF, content: Content::Alloc(new) });
        return lax(Acc, a, 5);
    }
    req!(cx.wr(&a[2]), "oracle record read-only", &["C13", "C11"]);
    p.abs.insert(
        a[3],
        AA { lamports: l, owner: VRF, content: Content::Queue(Q { size: new, index: idx, items: vec![] }) },
    );
    if let Some(AA { content: Content::Oracle { open, .. }, .. }) = p.abs.get_mut(&a[2]) {
        *open += 1;
    }
    lax(if d[5..8] == [0; 3] { Acc } else { May }, a, 5)
}

pub fn decode_request(d: &[u8]) -> Option<(Req, usize)> {
    let mut o = 0;
    let take = |n: usize, o: &mut usize| -> Option<Vec<u8>> {
        let r = d.get(*o..o.checked_add(n)?)?.to_vec();
        *o += n;
        Some(r)
    };
    let len = |o: &mut usize| -> Option<usize> { Some(u32::from_le_bytes(take(4, o)?.try_into().unwrap()) as usize) };
    let seed: [u8; 32] = take(32, &mut o)?.try_into().unwrap();
    let prog = Pubkey::new_from_array(take(32, &mut o)?.try_into().unwrap());
    let n = len(&mut o)?;
    let disc = take(n, &mut o)?;
    let n = len(&mut o)?;
    let mut metas = vec![];
    for _ in 0..n {
        let k = Pubkey::new_from_array(take(32, &mut o)?.try_into().unwrap());
        let s = take(1, &mut o)?[0];
        let w = take(1, &mut o)?[0];
        if s > 1 || w > 1 {
            return None;
        }
        metas.push((k, s == 1, w == 1));
    }
    let n = len(&mut o)?;
    let args = take(n, &mut o)?;
    Some((Req { seed, prog, disc, metas, args, high: false }, o))
}

fn request(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8], high: bool) -> V {
    p.ops.push("request");
    let Some((r, used)) = decode_request(d) else { return Rej("undecodable request", &["C15"]) };
    if let Some(v) = accts(a, 5) {
        return v;
    }
    req!(cx.s(&a[0]), "payer signature", &["C09"]);
    req!(a[1] == identity_of(&r.prog), "not the callback program's identity", &["C09"]);
    req!(cx.s(&a[1]), "callback program's signature", &["C09"]);
    req!(a[4] == SLOT_HASHES, "not the slot-hashes sysvar", &["C09"]);
    let Some(AA { owner, content: Content::Queue(mut q), lamports }) = get(p, &a[2]).cloned() else {
        return match get(p, &a[2]).map(|x| (&x.content, x.owner == VRF)) {
            Some((Content::Alloc(_), true)) => Rej("queue not initialised", &["C13", "C11"]),
            _ => Rej("not a queue", &["C11", "C12"]),
        };
    };
    req!(owner == VRF, "queue not owned by the program", &["C11", "C14"]);
    req!(cx.wr(&a[2]), "queue read-only", &["C11"]);
    req!(r.disc.len() <= 8, "discriminator too long", &["C10"]);
    req!(r.metas.len() <= 20, "too many accounts", &["C10"]);
    req!(r.args.len() <= 512, "arguments too long", &["C10"]);
    // capacity
    let cap = q.size - 8;
    let tail = q.items.iter().map(|i| i.end).max().unwrap_or(16);
    let start = align8(tail);
    let fits = start + r.bytes() <= cap;
    let mut v = Acc;
    if !fits {
        let live: usize = q.items.iter().map(|i| align8(i.bytes())).sum();
        if 16 + live + r.bytes() > cap {
            return Rej("queue full", &["C10"]);
        }
        v = May;
    }
    let fee = if high { 800_000 } else { 500_000 };
    if a[2] != default_queue() {
        req!(a[3] == sys_id(), "system program", &["C11"]);
        match transfer(cx, p, a[0], a[2], fee) {
            Acc => {}
            x => return x,
        }
    } else if a[3] != sys_id() {
        v = May;
    }
    let end = if fits { start + r.bytes() } else { usize::MAX / 4 };
    p.again |= q.items.iter().any(|i| i.slot == cx.w.slot && i.prog == r.prog && i.disc == r.disc);
    q.items.push(Item {
        id: [0; 32],
        slot: cx.w.slot,
        prog: r.prog,
        disc: r.disc,
        metas: r.metas.iter().map(|m| (m.0, m.2)).collect(),
        args: r.args,
        high,
        end,
    });
    let l = lam(p, &a[2]);
    let _ = lamports;
    p.abs.insert(a[2], AA { lamports: l, owner: VRF, content: Content::Queue(q) });
    p.new_items.push(a[2]);
    if used != d.len() && v == Acc {
        v = May;
    }
    lax(v, a, 5)
}

/// Independent verifier of the documented proof equations (curve25519-dalek).
pub fn verify(pk: &[u8; 32], input: &[u8; 32], pr: &Proof) -> bool {
    use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
    use curve25519_dalek::ristretto::CompressedRistretto as C;
    use curve25519_dalek::Scalar;
    use sha2::{Digest, Sha256};
    let dec = |b: &[u8; 32]| C(*b).decompress();
    let (Some(pkp), Some(out), Some(cb), Some(ch)) = (dec(pk), dec(&pr.output), dec(&pr.cb), dec(&pr.ch)) else { return false };
    let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(pr.s)) else { return false };
    let sha = |parts: &[&[u8]]| -> [u8; 32] {
        let mut h = Sha256::new();
        for p in parts {
            h.update(p);
        }
        h.finalize().into()
    };
    let h = Scalar::from_bytes_mod_order(sha(&[b"VRF-Ephem-HashToPoint", input])) * G;
    let ch0 = sha(&[b"VRF-Ephem-Challenge", &pr.output, &pr.cb, &pr.ch, pk, input]);
    let c = Scalar::from_bytes_mod_order(sha(&[b"VRF-Ephem-HashToScalar", &ch0]));
    s * G == cb + c * pkp && s * h == ch + c * out
}
fn verify_cached(pk: &[u8; 32], input: &[u8; 32], pr: &Proof) -> bool {
    type K = ([u8; 32], [u8; 32], [[u8; 32]; 4]);
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<K,bool>> = Default::default());
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry((*pk, *input, [pr.output, pr.cb, pr.ch, pr.s])).or_insert_with(|| verify(pk, input, pr))
    })
}

fn provide(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("provide");
    req!(d.len() == 160, "payload size", &["C15"]);
    let f = |n: usize| -> [u8; 32] { d[32 * n..32 * n + 32].try_into().unwrap() };
    let (id, pr) = (f(0), Proof { output: f(1), cb: f(2), ch: f(3), s: f(4) });
    if let Some(v) = accts(a, 5) {
        return v;
    }
    let (o, ident, rec, qk, prog) = (a[0], a[1], a[2], a[3], a[4]);
    req!(cx.s(&o), "oracle signature", &["C03"]);
    let Some((pk, _, _)) = oracle_rec(p, &rec, &o) else { return Rej("not the signer's oracle record", &["C03", "C11", "C12"]) };
    let Some(AA { owner, content: Content::Queue(mut q), .. }) = get(p, &qk).cloned() else {
        return Rej("not an initialised queue", &["C03", "C11", "C13"]);
    };
    req!(owner == VRF, "queue not owned by the program", &["C03", "C11", "C14"]);
    req!(qk == queue(&o, q.index), "not this oracle's queue", &["C03", "C11"]);
    req!(cx.wr(&qk), "queue read-only", &["C11"]);
    let Some(pos) = q.items.iter().position(|i| i.id == id) else {
        if q.items.iter().any(|i| i.id == [0; 32]) {
            return Rej("answered in the slot (and transaction) of the request", &["C04"]);
        }
        return Rej("no such pending request", &["C01", "C03"]);
    };
    let it = q.items[pos].clone();
    req!(!it.metas.iter().any(|m| m.0 == o), "oracle among the callback accounts", &["C05"]);
    req!(cx.w.slot > it.slot, "same slot as the request", &["C04"]);
    req!(verify_cached(&pk, &id, &pr), "invalid proof", &["C03", "C17"]);
    req!(prog == it.prog, "not the requested callback program", &["C02", "C03", "C28"]);
    req!(ident == vrf_identity(), "not the VRF identity", &["C03", "C28"]);
    let mut v = Acc;
    // accounts the callback needs
    let fixed = [o, rec, qk];
    for (mk, w) in &it.metas {
        let known = *mk == ident || *mk == prog || a[5..].contains(mk);
        if !known {
            if fixed.contains(mk) {
                v = May;
            } else {
                return Rej("missing callback account", &["C02"]);
            }
        }
        if *w && !cx.wr(mk) {
            let exec = cx.w.get(mk).map(|x| x.executable).unwrap_or(false);
            req!(exec, "callback account not writable", &["C05", "C02"]);
            v = May;
        }
    }
    req!(!cx.stack.contains(&it.prog), "callback program is already on the stack", &["C02"]);
    let behavior = match cx.w.programs.get(&it.prog) {
        Some(Prog::Consumer(b)) => b.clone(),
        Some(_) => return May,
        None => return Rej("callback program cannot be invoked", &["C02"]),
    };
    let mut data = it.disc.clone();
    data.extend(solana_program::hash::hash(&pr.output).to_bytes());
    data.extend(&it.args);
    let mut accounts = vec![(ident, true, it.metas.iter().any(|m| m.0 == ident && m.1))];
    for (mk, _) in &it.metas {
        let w = it.metas.iter().any(|m| m.0 == *mk && m.1);
        accounts.push((*mk, *mk == ident, w && cx.wr(mk)));
    }
    match behavior {
        Behavior::Record => {}
        Behavior::Fail | Behavior::Abort => return Rej("callback failed", &["C02"]),
        Behavior::Scribble => {
            for (mk, w) in &it.metas {
                if *w {
                    if let Some(x) = p.abs.get_mut(mk) {
                        if x.owner == it.prog {
                            x.content = Content::Any;
                        }
                    }
                }
            }
        }
        Behavior::Steal => {
            if it.metas.iter().any(|(mk, w)| *w && lam(p, mk) > 0 && get(p, mk).map(|x| x.owner) != Some(it.prog)) {
                return Rej("callback failed", &["C02", "C06"]);
            }
        }
        Behavior::Reenter(inner) => {
            let all: Vec<Pubkey> = accounts.iter().map(|x| x.0).collect();
            if inner.accounts.iter().all(|m| all.contains(&m.pubkey)) && all.contains(&inner.program_id) {
                return Rej("re-entrant callback", &["C02", "C01"]);
            }
        }
        Behavior::Relay { .. } => v = May,
    }
    p.calls.push(ExpCall { prog: it.prog, accounts, data });
    q.items.remove(pos);
    p.abs.get_mut(&qk).unwrap().content = Content::Queue(q);
    if qk != default_queue() {
        req!(cx.wr(&o), "oracle read-only", &["C06", "C11"]);
        add(p, qk, -(it.fee() as i128));
        add(p, o, it.fee() as i128);
    }
    v
}

fn purge(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("purge");
    req!(d.len() == 1, "payload size", &["C15"]);
    if let Some(v) = accts(a, 2) {
        return v;
    }
    req!(a[1] == queue(&a[0], d[0]), "oracle, queue and index do not match", &["C07", "C11"]);
    req!(cx.wr(&a[1]), "queue read-only", &["C07", "C11"]);
    let Some(AA { owner, content: Content::Queue(mut q), .. }) = get(p, &a[1]).cloned() else {
        return Rej("not an initialised queue", &["C07", "C11", "C13"]);
    };
    req!(owner == VRF, "queue not owned by the program", &["C07", "C11", "C14"]);
    let slot = cx.w.slot;
    let (gone, keep): (Vec<Item>, Vec<Item>) = q.items.into_iter().partition(|i| slot.saturating_sub(i.slot) > 240);
    q.items = keep;
    let fees: u64 = gone.iter().map(|i| i.fee()).sum();
    p.abs.get_mut(&a[1]).unwrap().content = Content::Queue(q);
    if fees > 0 && a[1] != default_queue() {
        req!(cx.wr(&a[0]), "oracle read-only", &["C06", "C07"]);
        add(p, a[1], -(fees as i128));
        add(p, a[0], fees as i128);
    }
    lax(Acc, a, 2)
}

fn close(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("close");
    req!(d.len() == 1, "payload size", &["C15"]);
    if let Some(v) = accts(a, 3) {
        return v;
    }
    req!(cx.s(&a[0]), "oracle signature", &["C13"]);
    req!(oracle_rec(p, &a[1], &a[0]).is_some() && cx.wr(&a[1]), "not the oracle's record", &["C13", "C11"]);
    req!(a[2] == queue(&a[0], d[0]) && cx.wr(&a[2]), "not this oracle's queue", &["C13", "C11"]);
    let Some(AA { owner, content: Content::Queue(q), lamports }) = get(p, &a[2]).cloned() else {
        return Rej("not an initialised queue", &["C13", "C11"]);
    };
    req!(owner == VRF, "queue not owned by the program", &["C13", "C14"]);
    req!(q.items.is_empty(), "queue not empty", &["C13", "C01"]);
    req!(cx.wr(&a[0]), "oracle read-only", &["C11"]);
    p.abs.remove(&a[2]);
    add(p, a[0], lamports as i128);
    if let Some(AA { content: Content::Oracle { open, .. }, .. }) = p.abs.get_mut(&a[1]) {
        *open = open.saturating_sub(1);
    }
    lax(Acc, a, 3)
}

fn delegate(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("delegate");
    req!(d.len() == 1, "payload size", &["C15"]);
    if let Some(v) = accts(a, 8) {
        return v;
    }
    req!(cx.s(&a[0]), "authority signature", &["C14"]);
    req!(a[6] == VRF, "owner program", &["C14", "C11"]);
    req!(a[1] == queue(&a[0], d[0]) && cx.wr(&a[1]), "not the authority's queue", &["C14", "C11"]);
    req!(
        a[2] == pda(&[b"buffer", a[1].as_ref()], &VRF)
            && a[3] == pda(&[b"delegation", a[1].as_ref()], &dlp::ID)
            && a[4] == pda(&[b"delegation-metadata", a[1].as_ref()], &dlp::ID)
            && a[7] == sys_id(),
        "delegation accounts",
        &["C14", "C11"]
    );
    if a[5] != dlp::ID {
        return Rej("not the delegation program", &["C14", "C11"]);
    }
    req!(cx.wr(&a[2]) && cx.wr(&a[3]) && cx.wr(&a[4]), "read-only delegation accounts", &["C14", "C11"]);
    if !cx.wr(&a[0]) {
        return May;
    }
    p.free.extend([a[0], a[3], a[4], a[2]]);
    match get(p, &a[1]).cloned() {
        Some(AA { owner, content: Content::Queue(_), .. }) if owner == VRF => {
            p.abs.get_mut(&a[1]).unwrap().owner = dlp::ID;
            // (one CPI cannot create a buffer of more than 10 KiB)
            let funds_ok = lam(p, &a[0]) > 100_000_000 && cx.w.data(&a[1]).len() <= 10_240;
            if funds_ok && get(p, &a[3]).is_none() && get(p, &a[4]).is_none() && get(p, &a[2]).is_none() {
                lax(Acc, a, 8)
            } else {
                May
            }
        }
        Some(AA { owner, .. }) if owner == dlp::ID => Rej("already delegated", &["C14"]),
        _ => {
            // not a usable queue: whatever happens stays within the authority's own address
            p.free.insert(a[1]);
            May
        }
    }
}

fn undelegate(cx: &Cx, p: &mut Pred, a: &[Pubkey], d: &[u8]) -> V {
    p.ops.push("undelegate");
    req!(d.len() == 1, "payload size", &["C15"]);
    if let Some(v) = accts(a, 4) {
        return v;
    }
    req!(cx.s(&a[0]), "authority signature", &["C14"]);
    req!(a[1] == queue(&a[0], d[0]) && cx.wr(&a[1]), "not the authority's queue", &["C14", "C11"]);
    req!(a[2] == MAGIC_CTX && a[3] == MAGIC, "magic accounts", &["C14", "C11"]);
    if cx.w.programs.get(&MAGIC) != Some(&Prog::Magic) {
        return Rej("magic program not available", &["C14"]);
    }
    if !cx.wr(&a[0]) || !cx.wr(&a[2]) {
        return May;
    }
    p.magic.push((a[0], a[1]));
    lax(Acc, a, 4)
}

/// the delegation program hands the account back with new content
fn dlp_undelegate(cx: &Cx, p: &mut Pred, ix: &Instruction) -> V {
    p.ops.push("dlp_undelegate");
    let (val, acc, rec, meta) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[4].pubkey, ix.accounts[5].pubkey);
    let delegated = get(p, &acc).map(|x| x.owner) == Some(dlp::ID) && get(p, &rec).map(|x| x.owner) == Some(dlp::ID);
    if !delegated || !cx.s(&val) {
        return Rej("not delegated", &["C14"]);
    }
    let mut e = vec![];
    let c = content(&VRF, &ix.data[8..], &mut e);
    let l = lam(p, &acc);
    p.free.extend([val, rec, meta, dlp::undelegate_buffer_pda(&acc).0]);
    p.abs.insert(acc, AA { lamports: l, owner: VRF, content: c });
    if ix.data.len() == 8 {
        p.free.insert(acc);
        return May;
    }
    Acc
}

// ------------------------------------------------------------------------------------------------ the comparison
#[derive(Clone)]
pub struct Outcome {
    pub ok: bool,
    pub log: Option<Log>,
    pub err: Option<Err>,
    pub pre: Abs,
    pub post: Abs,
    pub pred: Pred,
    pub verdict: V,
}

/// the operation an instruction (possibly forwarded by a consumer) asks for
pub fn op_of(ix: &Instruction) -> &'static str {
    let d: Vec<u8> = if ix.data.len() >= 44 && ix.data[..8] == FORWARD { unwrap_forward(ix).data } else { ix.data.clone() };
    match d.first() {
        Some(0) => "initialize",
        Some(1) => "modify_oracle",
        Some(2) => "init_queue",
        Some(3) | Some(8) => "request",
        Some(4) => "provide",
        Some(5) => "delegate",
        Some(6) => "undelegate",
        Some(7) => "close",
        Some(9) => "purge",
        Some(255) => "dlp_undelegate",
        _ => "other",
    }
}

pub fn live_props(ops: &[&'static str]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for o in ops {
        let l: &[&'static str] = match *o {
            "initialize" | "modify_oracle" => &["C12", "C15"],
            "init_queue" => &["C13", "C15"],
            "request" => &["C10", "C15", "C20"],
            "provide" => &["C01", "C15"],
            "purge" => &["C07", "C15"],
            "close" => &["C13", "C15"],
            "delegate" | "undelegate" | "dlp_undelegate" => &["C14", "C15"],
            _ => &[],
        };
        v.extend(l);
    }
    v.sort();
    v.dedup();
    v
}
fn content_props(ops: &[&'static str], c: &Content) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec!["C11"];
    match c {
        Content::Registry(_) => v.push("C12"),
        Content::Oracle { .. } => v.extend(["C12", "C13"]),
        Content::Queue(_) | Content::Alloc(_) => {
            for o in ops {
                let l: &[&'static str] = match *o {
                    "request" => &["C01", "C10"],
                    "provide" => &["C01", "C10"],
                    "purge" => &["C01", "C07", "C10"],
                    "init_queue" | "close" => &["C13"],
                    "delegate" | "undelegate" | "dlp_undelegate" => &["C14"],
                    _ => &["C01"],
                };
                v.extend(l);
            }
        }
        _ => {}
    }
    v.sort();
    v.dedup();
    v
}
fn lamport_props(ops: &[&'static str]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec!["C06"];
    for o in ops {
        let l: &[&'static str] = match *o {
            "purge" => &["C07"],
            "close" | "init_queue" => &["C13"],
            "modify_oracle" | "initialize" => &["C12"],
            _ => &[],
        };
        v.extend(l);
    }
    v
}

/// Execute a transaction on the real program and compare it with the reference semantics.
/// On success `w` is advanced.
pub fn check_tx(w: &mut World, ixs: &[Instruction], signers: &[Pubkey], v: &mut Vec<Viol>) -> Outcome {
    let mut e0 = vec![];
    let pre = alpha(w, &mut e0);
    let (verdict, pred) = predict(w, &pre, ixs, signers);
    let total = w.total();
    let before = w.accts.clone();
    // a valid transaction that never ends is one that fails
    let mut live = if verdict == Acc { live_props(&pred.ops) } else { vec![] };
    if verdict == Acc && pred.again {
        live.push("C08");
    }
    let r = crate::hang::guard(&live, &pred.ops.join("+"), ixs, || w.exec(ixs, signers));
    let mut out =
        Outcome { ok: r.is_ok(), log: None, err: None, pre: pre.clone(), post: pre, pred: pred.clone(), verdict: verdict.clone() };
    let ops = &pred.ops;
    match r {
        Err(e) => {
            debug_assert!(before == w.accts);
            if verdict == Acc {
                v.push(viol(
                    &live,
                    format!("rejected-valid:{}", ops.join("+")),
                    format!("a valid {} was rejected: {e:?}", ops.join("+")),
                ));
            }
            out.err = Some(e);
        }
        Ok(log) => {
            let mut errs = vec![];
            let post = alpha(w, &mut errs);
            for e in errs {
                if e0.contains(&e) {
                    continue;
                }
                v.push(viol(&["C10", "C01", "C11"], "queue-inconsistent", format!("after {}: {e}", ops.join("+"))));
            }
            if let Rej(why, props) = &verdict {
                let changed = before != w.accts || !log.calls.is_empty();
                v.push(viol(
                    props,
                    format!("accepted-invalid:{}:{why}", ops.join("+")),
                    format!("{} accepted although: {why} (state changed: {changed})", ops.join("+")),
                ));
            } else {
                compare(&pred, &out.pre, &post, &log, v);
            }
            if total != w.total() {
                v.push(viol(&["C06"], "lamports-not-conserved", format!("total lamports {total} -> {}", w.total())));
            }
            invariants(&post, v);
            out.log = Some(log);
            out.post = post;
        }
    }
    out
}

fn describe(c: &Content) -> String {
    match c {
        Content::Queue(q) => format!(
            "queue(size {}, index {}, [{}])",
            q.size,
            q.index,
            q.items
                .iter()
                .map(|i| format!("{:02x}{:02x}@{} {}B{}", i.id[0], i.id[1], i.slot, i.bytes(), if i.high { " high" } else { "" }))
                .collect::<Vec<_>>()
                .join(", ")
        ),
        Content::Raw(v) => format!("{} bytes", v.len()),
        c => format!("{c:?}"),
    }
}

fn same_content(exp: &Content, got: &Content, new_ids: usize) -> bool {
    match (exp, got) {
        (Content::Any, _) => true,
        (Content::Queue(a), Content::Queue(b)) => {
            if a.size != b.size || a.index != b.index || a.items.len() != b.items.len() {
                return false;
            }
            let n = a.items.len();
            a.items.iter().zip(&b.items).enumerate().all(|(i, (x, y))| {
                if i + new_ids >= n && x.id == [0; 32] {
                    let mut x = x.clone();
                    x.id = y.id;
                    x.same(y)
                } else {
                    x.same(y)
                }
            })
        }
        _ => exp == got,
    }
}

/// which promises a stored request that differs from the requested one breaks
fn item_props(exp: &Content, got: &Content) -> Vec<&'static str> {
    let (Content::Queue(a), Content::Queue(b)) = (exp, got) else { return vec![] };
    let mut v: Vec<&'static str> = vec![];
    if a.items.len() != b.items.len() {
        return v;
    }
    for (x, y) in a.items.iter().zip(&b.items) {
        if x.prog != y.prog || x.disc != y.disc || x.args != y.args || x.metas != y.metas {
            v.push("C02");
        }
        if x.metas.iter().zip(&y.metas).any(|(m, n)| m.0 == n.0 && !m.1 && n.1) {
            v.push("C05");
        }
        if x.prog != y.prog {
            v.extend(["C03", "C28"]);
        }
        if x.slot != y.slot {
            v.extend(["C04", "C07"]);
        }
        if x.high != y.high {
            v.push("C06");
        }
    }
    v
}

fn compare(pred: &Pred, pre: &Abs, post: &Abs, log: &Log, v: &mut Vec<Viol>) {
    let ops = &pred.ops;
    let opn = ops.join("+");
    let keys: BTreeSet<&Pubkey> = pred.abs.keys().chain(post.keys()).collect();
    for k in keys {
        if pred.free.contains(k) {
            // unconstrained lamports; a queue in this set must still be what it should be
            if let (Some(e), Some(g)) = (pred.abs.get(k), post.get(k)) {
                if let Content::Queue(q) = &e.content {
                    if !same_content(&e.content, &g.content, 0) || g.lamports < rent(q.size) {
                        v.push(viol(&content_props(ops, &e.content), format!("wrong-state:{opn}"), format!("{k}: expected {}, got {}", describe(&e.content), describe(&g.content))));
                    }
                }
            }
            continue;
        }
        match (pred.abs.get(k), post.get(k)) {
            (Some(e), Some(g)) => {
                if e.lamports != g.lamports {
                    v.push(viol(
                        &lamport_props(ops),
                        format!("wrong-lamports:{opn}"),
                        format!("after {opn}: {k} holds {} lamports instead of {} (before: {:?})", g.lamports, e.lamports, pre.get(k).map(|x| x.lamports)),
                    ));
                }
                if e.owner != g.owner {
                    v.push(viol(&["C11", "C14", "C13"], format!("wrong-owner:{opn}"), format!("after {opn}: {k} is owned by {} instead of {}", g.owner, e.owner)));
                }
                let n = pred.new_items.iter().filter(|x| *x == k).count();
                if !same_content(&e.content, &g.content, n) {
                    let mut pr = content_props(ops, &e.content);
                    pr.extend(item_props(&e.content, &g.content));
                    v.push(viol(
                        &pr,
                        format!("wrong-state:{opn}"),
                        format!("after {opn}: {k} is {} instead of {}", describe(&g.content), describe(&e.content)),
                    ));
                }
            }
            (Some(e), None) => {
                let mut pr = content_props(ops, &e.content);
                pr.push("C06");
                v.push(viol(&pr, format!("account-vanished:{opn}"), format!("after {opn}: {k} no longer exists ({})", describe(&e.content))));
            }
            (None, Some(g)) => {
                let mut pr = content_props(ops, &g.content);
                pr.push("C06");
                v.push(viol(&pr, format!("account-appeared:{opn}"), format!("after {opn}: {k} exists ({}, {} lamports)", describe(&g.content), g.lamports)));
            }
            _ => {}
        }
    }
    // the identity signs nothing but the callback invocation itself
    for c in &log.calls {
        if c.via.last() != Some(&VRF) && c.accounts.iter().any(|a| a.0 == vrf_identity() && a.1) {
            v.push(viol(
                &["C28"],
                "identity-relayed",
                format!("{} received the identity's signature from {:?}, which is not the vrf program", c.program, c.via.last()),
            ));
        }
    }
    // callbacks
    let relays = log.calls.iter().any(|c| c.via.iter().any(|x| *x != VRF));
    if !relays && log.calls.len() != pred.calls.len() {
        v.push(viol(&["C02", "C01", "C28"], format!("callback-count:{opn}"), format!("{} callback invocation(s) instead of {}", log.calls.len(), pred.calls.len())));
    }
    for (c, e) in log.calls.iter().filter(|c| c.via.iter().all(|x| *x == VRF)).zip(&pred.calls) {
        if c.program != e.prog {
            v.push(viol(&["C02", "C03", "C28"], "callback-program", format!("callback ran in {} instead of {}", c.program, e.prog)));
        }
        if c.data != e.data {
            v.push(viol(&["C02"], "callback-data", format!("callback data {:02x?} instead of {:02x?}", c.data, e.data)));
        }
        let ck: Vec<_> = c.accounts.iter().map(|a| a.0).collect();
        let ek: Vec<_> = e.accounts.iter().map(|a| a.0).collect();
        if ck != ek {
            v.push(viol(&["C02", "C05"], "callback-accounts", format!("callback accounts {ck:?} instead of {ek:?}")));
        } else {
            for (x, y) in c.accounts.iter().zip(&e.accounts) {
                if x.1 && !y.1 {
                    v.push(viol(&["C05"], "callback-signer", format!("callback received {} as a signer", x.0)));
                }
                if x.2 && !y.2 {
                    v.push(viol(&["C05", "C02"], "callback-writable", format!("callback received {} as writable", x.0)));
                }
                if (!x.1 && y.1) || (!x.2 && y.2) {
                    v.push(viol(&["C02"], "callback-flags", format!("callback received {} with (signer {}, writable {}) instead of ({}, {})", x.0, x.1, x.2, y.1, y.2)));
                }
            }
        }
    }
    // magic
    if log.magic.len() != pred.magic.len() {
        v.push(viol(&["C14"], format!("magic-calls:{opn}"), format!("{} magic-program calls instead of {}", log.magic.len(), pred.magic.len())));
    }
    for (m, (auth, q)) in log.magic.iter().zip(&pred.magic) {
        let want: Vec<Pubkey> = vec![*auth, MAGIC_CTX, *q];
        let got: Vec<Pubkey> = m.accounts.iter().map(|a| a.0).collect();
        if got != want || !m.accounts[0].1 {
            v.push(viol(&["C14"], "magic-accounts", format!("magic program called with {got:?} instead of {want:?}")));
        }
        // ScheduleCommitAndUndelegate
        if m.data.len() < 4 || m.data[..4] != [2, 0, 0, 0] {
            v.push(viol(&["C14"], "magic-data", format!("magic program called with data {:?}", m.data)));
        }
    }
}

/// State invariants that hold in every reachable state, whatever the history.
pub fn invariants(s: &Abs, v: &mut Vec<Viol>) {
    let mut listed: Vec<Pubkey> = vec![];
    if let Some(AA { content: Content::Registry(l), owner, .. }) = s.get(&registry()) {
        if *owner == VRF {
            listed = l.clone();
            let set: BTreeSet<_> = l.iter().collect();
            if set.len() != l.len() {
                v.push(viol(&["C12"], "registry-duplicate", "the registry lists an oracle twice".to_string()));
            }
        }
    }
    let mut with_record: BTreeMap<Pubkey, u64> = BTreeMap::new();
    for id in &listed {
        match s.get(&record(id)) {
            Some(AA { content: Content::Oracle { open, .. }, owner, .. }) if *owner == VRF => {
                with_record.insert(*id, *open);
            }
            _ => v.push(viol(&["C12"], "registry-stale", format!("the registry lists {id}, which has no live record"))),
        }
    }
    let nrec = s.values().filter(|a| a.owner == VRF && matches!(a.content, Content::Oracle { .. })).count();
    if nrec != with_record.len() {
        v.push(viol(&["C12"], "registry-incomplete", format!("{nrec} oracle records but {} listed", with_record.len())));
    }
    // queues: known address, open counters, solvency, id uniqueness
    let mut open: BTreeMap<Pubkey, u64> = BTreeMap::new();
    for (k, a) in s {
        if a.owner != VRF && a.owner != dlp::ID {
            continue;
        }
        match &a.content {
            Content::Queue(q) => {
                let own = with_record.keys().find(|id| queue(id, q.index) == *k);
                if let Some(o) = own {
                    *open.entry(*o).or_default() += 1;
                }
                if a.owner == VRF {
                    let fees = if *k == default_queue() { 0 } else { q.fees() };
                    if a.lamports < rent(q.size) + fees {
                        v.push(viol(&["C06"], "insolvent", format!("queue {k} holds {} lamports, needs {}", a.lamports, rent(q.size) + fees)));
                    }
                }
                let ids: BTreeSet<_> = q.items.iter().map(|i| i.id).collect();
                if ids.len() != q.items.len() {
                    v.push(viol(&["C08", "C01"], "duplicate-id", format!("queue {k} holds two requests with the same id")));
                }
            }
            Content::Raw(d) if a.owner == VRF => {
                v.push(viol(&["C11"], "corrupt-account", format!("program account {k} holds {} undecodable bytes", d.len())));
            }
            _ => {}
        }
    }
    for (o, n) in &with_record {
        let have = open.get(o).copied().unwrap_or(0);
        if have != *n {
            v.push(viol(&["C13", "C12"], "open-count", format!("oracle {o} has {have} usable queues but open_queue is {n}")));
        }
    }
}
