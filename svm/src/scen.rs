//! Transaction scenarios over the mini-SVM: every action is a transaction (or a clock step) executed on the real
//! program and compared with the reference semantics.
use crate::engine::*;
use crate::rt::*;
use crate::spec::{self, check_tx, Content};
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct St {
    pub w: World,
    /// history: every id ever accepted per queue, and whether it has been resolved
    pub ids: Arc<BTreeMap<(Pubkey, [u8; 32]), bool>>,
    /// free-form step counter of scripted scenarios
    pub n: u32,
}
impl St {
    pub fn new(w: World) -> St {
        let mut s = St { w, ids: Default::default(), n: 0 };
        let mut e = vec![];
        let abs = spec::alpha(&s.w, &mut e);
        let mut ids = BTreeMap::new();
        for (k, a) in &abs {
            if let Content::Queue(q) = &a.content {
                for i in &q.items {
                    ids.insert((*k, i.id), false);
                }
            }
        }
        s.ids = Arc::new(ids);
        s
    }
    pub fn queue(&self, k: &Pubkey) -> Vec<spec::Item> {
        let mut e = vec![];
        spec::decode_queue(self.w.data(k), &mut e).map(|q| q.items).unwrap_or_default()
    }
}

#[derive(Clone)]
pub enum Do {
    Tx(Vec<Instruction>, Vec<Pubkey>),
    Advance(u64),
    /// same slot, different clock time / slot hash
    Clock(u64, i64, [u8; 32]),
    /// environment step on the world (e.g. the loader changing the upgrade authority)
    Env(Arc<dyn Fn(&mut World) + Send + Sync>),
}
#[derive(Clone)]
pub struct Act {
    pub label: String,
    pub d: Do,
}
pub fn tx(label: impl Into<String>, ixs: Vec<Instruction>, signers: &[Pubkey]) -> Act {
    Act { label: label.into(), d: Do::Tx(ixs, signers.to_vec()) }
}
pub fn adv(n: u64) -> Act {
    Act { label: format!("advance {n}"), d: Do::Advance(n) }
}

pub struct Scen {
    pub name: String,
    pub depth: usize,
    pub max_states: usize,
    pub inits: Vec<(String, St)>,
    #[allow(clippy::type_complexity)]
    pub acts: Box<dyn Fn(&St) -> Vec<Act> + Sync>,
}

pub fn opname(ixs: &[Instruction]) -> String {
    ixs.iter()
        .map(|ix| {
            let tag = |d: &[u8]| -> String {
                match d.first() {
                    Some(0) => "initialize",
                    Some(1) => "modify_oracle",
                    Some(2) => "init_queue",
                    Some(3) => "request_high",
                    Some(8) => "request",
                    Some(4) => "provide",
                    Some(5) => "delegate",
                    Some(6) => "undelegate",
                    Some(7) => "close",
                    Some(9) => "purge",
                    Some(196) => "process_undelegation",
                    _ => "malformed",
                }
                .to_string()
            };
            if ix.program_id == VRF {
                tag(&ix.data)
            } else if ix.data.len() >= 44 && ix.data[..8] == FORWARD {
                let n = u32::from_le_bytes(ix.data[40..44].try_into().unwrap()) as usize;
                tag(ix.data.get(44 + 34 * n..).unwrap_or(&[]))
            } else if ix.program_id == crate::dlp::ID {
                "dlp".into()
            } else {
                "other".into()
            }
        })
        .collect::<Vec<_>>()
        .join("+")
}

/// apply one action, checking it against the reference semantics
pub fn apply(s: &St, a: &Act, v: &mut Vec<Viol>) -> Step<St> {
    let mut n = s.clone();
    n.n += 1;
    match &a.d {
        Do::Advance(k) => {
            n.w.advance(*k);
            Step { next: Some(n), op: "advance".into(), ok: true }
        }
        Do::Clock(slot, t, h) => {
            n.w.set_slot(*slot, *t, *h);
            Step { next: Some(n), op: "clock".into(), ok: true }
        }
        Do::Env(f) => {
            f(&mut n.w);
            Step { next: Some(n), op: "environment".into(), ok: true }
        }
        Do::Tx(ixs, signers) => {
            let o = check_tx(&mut n.w, ixs, signers, v);
            if o.ok {
                if ixs.iter().any(|ix| ix.program_id == crate::dlp::ID) {
                    // content handed back by the delegation program: its history was made elsewhere
                    n.ids = St::new(n.w.clone()).ids;
                } else {
                    history(&o, &mut n, v);
                }
            }
            Step { next: if o.ok { Some(n) } else { None }, op: opname(ixs), ok: o.ok }
        }
    }
}

/// history-based checks: ids are never reused, a resolved request never comes back
fn history(o: &spec::Outcome, n: &mut St, v: &mut Vec<Viol>) {
    let mut ids = (*n.ids).clone();
    let mut changed = false;
    for (k, a) in &o.post {
        let Content::Queue(q) = &a.content else { continue };
        let before: Vec<[u8; 32]> = match o.pre.get(k).map(|x| &x.content) {
            Some(Content::Queue(p)) => p.items.iter().map(|i| i.id).collect(),
            _ => vec![],
        };
        let after: Vec<[u8; 32]> = q.items.iter().map(|i| i.id).collect();
        for id in &after {
            let was = before.iter().filter(|x| *x == id).count();
            let is = after.iter().filter(|x| *x == id).count();
            if is > was {
                // a new request
                if ids.contains_key(&(*k, *id)) {
                    v.push(viol(&["C08", "C01"], "id-reused", format!("queue {k}: a new request got the id {:02x}{:02x}.. of an earlier one", id[0], id[1])));
                }
                ids.insert((*k, *id), false);
                changed = true;
            }
        }
        for id in &before {
            if !after.contains(id) {
                if ids.insert((*k, *id), true) == Some(true) {
                    v.push(viol(&["C01"], "resolved-twice", format!("queue {k}: request {:02x}{:02x}.. resolved twice", id[0], id[1])));
                }
                changed = true;
            }
        }
    }
    if changed {
        n.ids = Arc::new(ids);
    }
}

impl Scenario for Scen {
    type S = St;
    type A = Act;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn depth(&self) -> usize {
        self.depth
    }
    fn max_states(&self) -> usize {
        self.max_states
    }
    fn init(&self) -> Vec<(String, St)> {
        self.inits.clone()
    }
    fn actions(&self, s: &St) -> Vec<Act> {
        (self.acts)(s)
    }
    fn step(&self, s: &St, a: &Act, v: &mut Vec<Viol>) -> Step<St> {
        apply(s, a, v)
    }
    fn label(&self, a: &Act) -> String {
        a.label.clone()
    }
    fn key(&self, s: &St) -> u128 {
        let mut buf: Vec<u8> = vec![];
        buf.extend(s.w.slot.to_le_bytes());
        buf.extend(s.w.time.to_le_bytes());
        buf.extend(s.w.slothash);
        for (k, a) in &s.w.accts {
            if a.executable {
                continue;
            }
            buf.extend(k.as_ref());
            buf.extend(a.lamports.to_le_bytes());
            buf.extend(a.owner.as_ref());
            buf.extend((a.data.len() as u32).to_le_bytes());
            buf.extend(&a.data);
        }
        for ((k, id), r) in s.ids.iter() {
            buf.extend(&k.as_ref()[..8]);
            buf.extend(id);
            buf.push(*r as u8);
        }
        digest(&[&buf])
    }
}

// ------------------------------------------------------------------------------------------------ action builders
pub fn a_request(via: Pubkey, q: &Pubkey, r: &Req, label: &str) -> Act {
    tx(format!("request {label}"), vec![forward(via, &ix_request(&payer(), q, r))], &[payer()])
}
pub fn rest_of(it: &spec::Item) -> Vec<solana_program::instruction::AccountMeta> {
    it.metas
        .iter()
        .map(|(k, w)| solana_program::instruction::AccountMeta { pubkey: *k, is_signer: false, is_writable: *w })
        .collect()
}
pub fn ix_fulfil(o: &OracleKeys, q: &Pubkey, it: &spec::Item) -> Instruction {
    ix_provide(&o.id, q, &it.prog, &it.id, &prove(o, &it.id), &rest_of(it))
}
pub fn a_fulfil(o: &OracleKeys, q: &Pubkey, n: usize, it: &spec::Item) -> Act {
    tx(format!("provide #{n} ({:02x}{:02x}..)", it.id[0], it.id[1]), vec![ix_fulfil(o, q, it)], &[o.id])
}
pub fn a_purge(o: &OracleKeys, idx: u8) -> Act {
    tx("purge", vec![ix_purge(&o.id, idx)], &[mallory()])
}
