//! The environment of the oracle: chain (the mini-SVM with the real program), RPC node, streams, users, faults, and the
//! monitors which judge what the oracle does.
use base64::Engine as _;
use helius_laserstream::grpc as pb;
use mcrt::{End, Env, Op, Point, Rt, TaskId, MS, SEC};
use serde_json::{json, Value};
use solana_account_decoder_client_types::{UiAccount, UiAccountData, UiAccountEncoding};
use solana_client::pubsub_client::{SubscribeAnswer, SubscribeCall};
use solana_client::{RpcAnswer, RpcCall};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_rpc_client_api::config::RpcProgramAccountsConfig;
use solana_rpc_client_api::filter::RpcFilterType;
use solana_rpc_client_api::response::{Response, RpcKeyedAccount, RpcResponseContext};
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use svm::engine::{viol, Viol};
use svm::rt::World;
use svm::spec;
use svm::world::*;

pub const SLOT_MS: u64 = 400;
pub const RPC_LATENCY: u64 = 20 * MS;
pub const TTL: u64 = 240;
pub const HASH_LIFE: u64 = 150;
const BUDGET: &str = "ComputeBudget111111111111111111111111111111";

#[derive(Clone, Debug)]
pub enum Act {
    /// a user's transaction
    Tx(Vec<Instruction>, Vec<Pubkey>),
    /// the first pending request of own queue n is answered by somebody else (another instance of this oracle)
    AnswerElsewhere(u8),
    /// an account appears which carries a queue's discriminator but is not one of this oracle's queues
    Junk(Pubkey, Pubkey, Vec<u8>),
    /// GET /stats
    Stats,
}
#[derive(Clone)]
pub struct Setup {
    pub name: &'static str,
    pub world: World,
    pub script: Vec<(u64, Act)>,
    pub laser: bool,
    pub skip_preflight: bool,
    /// every RPC request fails in these windows (ms)
    pub outage: Vec<(u64, u64)>,
    /// the stream is down in these windows (ms): what happens in them is not notified
    pub stream_down: Vec<(u64, u64)>,
    /// requests whose callback always fails
    pub failing: BTreeSet<[u8; 32]>,
    /// least duration (ms)
    pub min: u64,
    /// longest time to wait for resolution after the last fault (ms)
    pub settle: u64,
    /// offer a fork switch after every landing of a transaction of the oracle
    pub rollback: bool,
    pub stats: bool,
    pub stall: u64,
    pub preempt: bool,
}

struct Event {
    due: u64,
    seq: u64,
    kind: Kind,
}
enum Kind {
    Rpc { op: u64, task: TaskId, call: RpcCall },
    /// an answer evaluated earlier
    Late { op: u64, task: TaskId, ans: RpcAnswer, meta: Meta },
    Subscribe { op: u64, call: SubscribeCall },
    Land(usize),
    Notify { sub: usize, key: Pubkey, data: Vec<u8>, owner: Pubkey, slot: u64 },
    Script(usize),
}
/// what an answer tells, for the monitors
#[derive(Clone, Default)]
struct Meta {
    hash: Option<([u8; 32], u64)>,
    snaps: Vec<(Pubkey, Vec<u8>, u64)>,
    confirmed: Option<([u8; 64], bool)>,
    error: bool,
}
struct Sub {
    chan: u64,
    laser: bool,
    alive: bool,
    filter: Filter,
    /// notifications put in, in order: (key, data, slot)
    sent: std::collections::VecDeque<Option<(Pubkey, Vec<u8>, u64)>>,
}
#[derive(Clone)]
enum Filter {
    Ws(Vec<RpcFilterType>, Option<UiAccountEncoding>, Pubkey),
    Laser(pb::SubscribeRequest),
}
struct TxRec {
    tx: Transaction,
    sig: [u8; 64],
    done: bool,
}
#[derive(Clone, Debug)]
pub struct ReqInfo {
    pub id: [u8; 32],
    pub queue: Pubkey,
    pub slot: u64,
    pub prog: Pubkey,
    pub metas: Vec<(Pubkey, bool)>,
    pub failing: bool,
    pub resolved: bool,
    pub rolled_back: bool,
}
#[derive(Clone)]
struct Answer {
    hash: [u8; 32],
    slot: u64,
    task: TaskId,
    /// not known to have been applied, or not, yet
    open: bool,
    /// its refresh was cancelled: it may never be applied
    doubt: bool,
}
#[derive(Default)]
struct QueueView {
    /// sizes /stats may show
    sizes: BTreeSet<usize>,
    /// snapshots delivered since the last full quiescence: (ids with enqueue slots, stream slot, data slot)
    group: Vec<(BTreeMap<[u8; 32], u64>, Option<u64>, u64)>,
    tracked: BTreeMap<[u8; 32], u64>,
    count: u64,
    sum: f64,
    newest: u64,
    lenient: bool,
}

pub struct Sim {
    pub setup: Arc<Setup>,
    devs: BTreeMap<usize, usize>,
    pub points: Vec<u16>,
    pub trace: Option<Vec<String>>,
    w: World,
    slot0: u64,
    events: Vec<Event>,
    seq: u64,
    subs: Vec<Sub>,
    txs: Vec<TxRec>,
    sigs: BTreeMap<[u8; 64], (u64, bool)>,
    hashes: BTreeMap<[u8; 32], u64>,
    pub reqs: BTreeMap<[u8; 32], ReqInfo>,
    own: Vec<(Pubkey, u8)>,
    undo: Option<(World, Vec<[u8; 32]>, [u8; 64])>,
    /// outcomes of what was tried on this state of the chain: (slot, instructions)
    tried: BTreeMap<(u64, Vec<u8>), Result<(), String>>,
    offer_rollback: bool,
    last_fault: u64,
    script_left: usize,
    over: bool,
    final_stats: u8,
    main: TaskId,
    // monitors
    pub found: Vec<Viol>,
    now: u64,
    answers: Vec<Answer>,
    /// the pairs which may be in use: those of the last refreshes, whose order is not observable
    pairs: BTreeSet<[u8; 32]>,
    workers: BTreeMap<[u8; 32], BTreeSet<TaskId>>,
    purgers: BTreeMap<Pubkey, BTreeSet<TaskId>>,
    gone: BTreeSet<[u8; 32]>,
    views: BTreeMap<Pubkey, QueueView>,
    confirmed: BTreeSet<([u8; 32], TaskId)>,
    sent_for: BTreeMap<[u8; 64], [u8; 32]>,
    err_to: BTreeMap<TaskId, u64>,
    last_hash_try: u64,
    last_pair: u64,
    pending_hash: usize,
    http_task: Option<TaskId>,
    http_out: Arc<Mutex<Option<(u16, Vec<u8>)>>>,
    want_stats: bool,
    /// snapshots delivered, now and when GET /stats began
    snaps: u64,
    snaps_then: u64,
    pub crashes: u32,
    pub sends: u64,
    pub landed: u64,
    pub answered: u64,
    pub stats_seen: u64,
    pub faults: u64,
}

/// `spec::verify`, remembered
fn verified(pk: &[u8; 32], id: &[u8; 32], p: &Proof) -> bool {
    type Key = ([u8; 32], [u8; 32], [[u8; 32]; 4]);
    static C: Mutex<BTreeMap<Key, bool>> = Mutex::new(BTreeMap::new());
    let key = (*pk, *id, [p.output, p.cb, p.ch, p.s]);
    if let Some(b) = C.lock().unwrap().get(&key) {
        return *b;
    }
    let b = spec::verify(pk, id, p);
    C.lock().unwrap().insert(key, b);
    b
}
fn bh(slot: u64) -> [u8; 32] {
    h32(&format!("blockhash{slot}"))
}
pub fn me() -> Pubkey {
    oracle("oracle-a").id
}
fn is_queue(data: &[u8]) -> bool {
    data.len() >= 20 && data[..8] == [3, 0, 0, 0, 0, 0, 0, 0]
}
/// the oracle's service, as its entry point leaves it
async fn service() {
    let _ = app::oracle_main().await;
}

impl Sim {
    pub fn new(setup: Arc<Setup>, devs: BTreeMap<usize, usize>, trace: bool) -> Sim {
        let w = setup.world.clone();
        let slot0 = w.slot;
        let mut own = vec![];
        static ALL: std::sync::OnceLock<Vec<Pubkey>> = std::sync::OnceLock::new();
        let all = ALL.get_or_init(|| (0..=255).map(|i| queue(&me(), i)).collect());
        for i in 0..=255u8 {
            let q = all[i as usize];
            if w.get(&q).is_some_and(|a| is_queue(&a.data)) {
                own.push((q, i));
            }
        }
        let mut s = Sim {
            devs,
            points: vec![],
            trace: trace.then(Vec::new),
            w,
            slot0,
            events: vec![],
            seq: 0,
            subs: vec![],
            txs: vec![],
            sigs: BTreeMap::new(),
            hashes: BTreeMap::new(),
            reqs: BTreeMap::new(),
            own,
            undo: None,
            tried: BTreeMap::new(),
            offer_rollback: false,
            last_fault: 0,
            script_left: setup.script.len(),
            over: false,
            final_stats: 0,
            main: 0,
            found: vec![],
            now: SEC,
            answers: vec![],
            pairs: BTreeSet::new(),
            workers: BTreeMap::new(),
            purgers: BTreeMap::new(),
            gone: BTreeSet::new(),
            views: BTreeMap::new(),
            confirmed: BTreeSet::new(),
            sent_for: BTreeMap::new(),
            err_to: BTreeMap::new(),
            last_hash_try: 0,
            last_pair: 0,
            pending_hash: 0,
            http_task: None,
            http_out: Arc::new(Mutex::new(None)),
            want_stats: false,
            snaps: 0,
            snaps_then: 0,
            crashes: 0,
            sends: 0,
            landed: 0,
            answered: 0,
            stats_seen: 0,
            faults: 0,
            setup,
        };
        for i in 0..s.setup.script.len() {
            let due = SEC + s.setup.script[i].0 * MS;
            s.push(due, Kind::Script(i));
        }
        let ends: Vec<u64> =
            s.setup.outage.iter().chain(&s.setup.stream_down).map(|o| SEC + o.1 * MS).collect();
        s.last_fault = ends.into_iter().max().unwrap_or(0);
        s.learn();
        s
    }
    /// run one execution
    pub fn run(self) -> (Box<Sim>, mcrt::Outcome2) {
        let (stall, preempt) = (self.setup.stall, self.setup.preempt);
        let o = mcrt::run(Box::new(self), stall, preempt, |rt| {
            rt.spawn(Box::pin(service()), false);
        });
        let (env, info) = o.split();
        let any: Box<dyn std::any::Any> = env.into_any();
        (any.downcast::<Sim>().expect("sim"), info)
    }
    fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let l = format!("{:9.3}ms slot {} | {}", (self.now - SEC) as f64 / 1e6, self.slot(), f());
            self.trace.as_mut().unwrap().push(l);
        }
    }
    fn bad(&mut self, props: &[&'static str], kind: &str, msg: String) {
        self.log(|| format!("VIOLATION {props:?} {kind}: {msg}"));
        if !self.found.iter().any(|v| v.kind == kind) {
            let t = (self.now - SEC) as f64 / 1e6;
            self.found.push(viol(props, kind, format!("{msg} (at {t:.1} ms)")));
        }
    }
    fn slot_at(&self, t: u64) -> u64 {
        self.slot0 + (t.saturating_sub(SEC)) / (SLOT_MS * MS)
    }
    pub fn slot(&self) -> u64 {
        self.slot_at(self.now)
    }
    fn push(&mut self, due: u64, kind: Kind) {
        self.seq += 1;
        let seq = self.seq;
        let i = self.events.partition_point(|e| (e.due, e.seq) <= (due, seq));
        self.events.insert(i, Event { due, seq, kind });
    }
    fn fault(&mut self) {
        self.faults += 1;
        self.last_fault = self.last_fault.max(self.now);
    }
    fn name(&self, id: &[u8; 32]) -> String {
        let n = self.reqs.keys().position(|k| k == id);
        format!("request {}", n.map(|n| n.to_string()).unwrap_or_else(|| svm_short(id)))
    }
    /// register the requests found on chain, and which are gone
    fn learn(&mut self) {
        let mut present = BTreeSet::new();
        for (q, _) in self.own.clone() {
            let Some(v) = spec::decode_queue(self.w.data(&q), &mut vec![]) else { continue };
            for it in v.items {
                present.insert(it.id);
                let failing = self.setup.failing.contains(&it.id) || self.setup.failing.contains(&it.prog.to_bytes());
                self.reqs.entry(it.id).or_insert(ReqInfo {
                    id: it.id,
                    queue: q,
                    slot: it.slot,
                    prog: it.prog,
                    metas: it.metas.clone(),
                    failing,
                    resolved: false,
                    rolled_back: false,
                });
            }
        }
        for r in self.reqs.values_mut() {
            let p = present.contains(&r.id);
            if r.resolved && p {
                r.rolled_back = true;
            }
            r.resolved = !p;
        }
    }
    fn tick_world(&mut self) {
        let s = self.slot();
        if self.w.slot != s {
            let t = self.w.time + ((s - self.w.slot) as i64).max(0) / 2;
            self.w.set_slot(s, t, h32(&format!("hash{s}")));
        }
    }
    /// execute on the chain; notify subscribers of changed accounts
    fn execute(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> bool {
        self.tick_world();
        let key = (self.w.slot, ix_key(ixs, signers));
        if self.tried.get(&key).is_some_and(|r| r.is_err()) {
            return false;
        }
        let before = self.w.clone();
        let r = self.w.exec(ixs, signers).map(|_| ()).map_err(|e| format!("{e:?}"));
        let ok = r.is_ok();
        if !ok {
            self.tried.insert(key, r);
        } else {
            self.tried.clear();
            self.learn();
            let slot = self.slot();
            let changed: Vec<Pubkey> = ixs
                .iter()
                .flat_map(|i| i.accounts.iter().map(|m| m.pubkey))
                .collect::<BTreeSet<_>>()
                .into_iter()
                .filter(|k| self.w.get(k) != before.get(k))
                .collect();
            self.notify(&changed, slot);
        }
        ok
    }
    fn notify(&mut self, keys: &[Pubkey], slot: u64) {
        let t = (self.now - SEC) / MS;
        if self.setup.stream_down.iter().any(|(a, b)| (*a..*b).contains(&t)) {
            return;
        }
        for k in keys {
            let Some(a) = self.w.get(k).cloned() else { continue };
            for s in 0..self.subs.len() {
                if self.subs[s].alive && self.subs[s].filter.matches(k, &a) {
                    let due = self.now + 15 * MS;
                    self.push(
                        due,
                        Kind::Notify { sub: s, key: *k, data: a.data.clone(), owner: a.owner, slot },
                    );
                }
            }
        }
    }

    // ------------------------------------------------------------ RPC

    fn outage(&self) -> bool {
        let t = (self.now - SEC) / MS;
        self.setup.outage.iter().any(|(a, b)| (*a..*b).contains(&t))
    }
    fn evaluate(&mut self, task: TaskId, call: &RpcCall, stale_hash: bool, accept: Accept) -> (RpcAnswer, Meta) {
        let slot = self.slot();
        let ctx = json!({"slot": slot, "apiVersion": "3.0.0"});
        let mut meta = Meta::default();
        let p = &call.params;
        let v = match call.method.as_str() {
            "getLatestBlockhash" => {
                let s = if stale_hash { slot.saturating_sub(30) } else { slot };
                meta.hash = Some((bh(s), s));
                self.hashes.insert(bh(s), s);
                json!({"context": {"slot": s, "apiVersion": "3.0.0"},
                    "value": {"blockhash": bs58::encode(bh(s)).into_string(), "lastValidBlockHeight": s + HASH_LIFE}})
            }
            "getProgramAccounts" => {
                let cfg: Value = p.get(1).cloned().unwrap_or(Value::Null);
                let filters: Vec<RpcFilterType> = cfg
                    .get("filters")
                    .and_then(|f| serde_json::from_value(f.clone()).ok())
                    .unwrap_or_default();
                let enc: Option<UiAccountEncoding> =
                    cfg.get("encoding").and_then(|f| serde_json::from_value(f.clone()).ok());
                let owner = p.get(0).and_then(|x| x.as_str()).unwrap_or("").to_string();
                let mut out = vec![];
                for (k, a) in &self.w.accts {
                    if a.owner.to_string() == owner && rpc_filters(&filters, &a.data) {
                        if is_queue(&a.data) {
                            meta.snaps.push((*k, a.data.clone(), slot));
                        }
                        out.push(json!({"pubkey": k.to_string(), "account": ui_account(a, enc)}));
                    }
                }
                if cfg.get("withContext").and_then(|x| x.as_bool()) == Some(true) {
                    json!({"context": ctx, "value": out})
                } else {
                    json!(out)
                }
            }
            "sendTransaction" => return self.send_transaction(task, p, accept),
            "getSignatureStatuses" => {
                let sigs = p.get(0).and_then(|x| x.as_array()).cloned().unwrap_or_default();
                let mut out = vec![];
                for s in sigs {
                    let mut b = [0u8; 64];
                    let _ = bs58::decode(s.as_str().unwrap_or("")).onto(&mut b);
                    match self.sigs.get(&b).filter(|_| accept != Accept::No) {
                        Some((sl, ok)) => {
                            meta.confirmed = Some((b, *ok));
                            let st = if *ok { json!({"Ok": null}) } else { json!({"Err": {"InstructionError": [1, {"Custom": 1}]}}) };
                            let err = if *ok { Value::Null } else { json!({"InstructionError": [1, {"Custom": 1}]}) };
                            out.push(json!({"slot": sl, "confirmations": 1, "status": st, "err": err, "confirmationStatus": "processed"}));
                        }
                        None => out.push(Value::Null),
                    }
                }
                json!({"context": ctx, "value": out})
            }
            "getSlot" | "getBlockHeight" => json!(slot),
            "getVersion" => json!({"solana-core": "3.0.0", "feature-set": 0}),
            "getHealth" => json!("ok"),
            "getBalance" => {
                let k = p.get(0).and_then(|x| x.as_str()).and_then(|s| s.parse::<Pubkey>().ok()).unwrap_or_default();
                json!({"context": ctx, "value": self.w.lamports(&k)})
            }
            "isBlockhashValid" => {
                let mut b = [0u8; 32];
                let _ = bs58::decode(p.get(0).and_then(|x| x.as_str()).unwrap_or("")).onto(&mut b);
                let ok = self.hashes.get(&b).is_some_and(|s| s + HASH_LIFE >= slot);
                json!({"context": ctx, "value": ok})
            }
            "getAccountInfo" => {
                let k = p.get(0).and_then(|x| x.as_str()).and_then(|s| s.parse::<Pubkey>().ok()).unwrap_or_default();
                let enc: Option<UiAccountEncoding> =
                    p.get(1).and_then(|c| c.get("encoding")).and_then(|f| serde_json::from_value(f.clone()).ok());
                let a = self.w.get(&k).cloned();
                if let Some(a) = a.as_ref().filter(|a| is_queue(&a.data)) {
                    meta.snaps.push((k, a.data.clone(), slot));
                }
                json!({"context": ctx, "value": a.map(|a| ui_account(&a, enc))})
            }
            "getMultipleAccounts" => {
                let enc: Option<UiAccountEncoding> =
                    p.get(1).and_then(|c| c.get("encoding")).and_then(|f| serde_json::from_value(f.clone()).ok());
                let mut out = vec![];
                for k in p.get(0).and_then(|x| x.as_array()).cloned().unwrap_or_default() {
                    let k = k.as_str().and_then(|s| s.parse::<Pubkey>().ok()).unwrap_or_default();
                    let a = self.w.get(&k).cloned();
                    if let Some(a) = a.as_ref().filter(|a| is_queue(&a.data)) {
                        meta.snaps.push((k, a.data.clone(), slot));
                    }
                    out.push(json!(a.map(|a| ui_account(&a, enc))));
                }
                json!({"context": ctx, "value": out})
            }
            m => return (RpcAnswer::Rpc(-32601, format!("Method not found: {m}"), None), meta),
        };
        (RpcAnswer::Ok(v), meta)
    }
    fn send_transaction(&mut self, task: TaskId, p: &Value, accept: Accept) -> (RpcAnswer, Meta) {
        let mut meta = Meta::default();
        let cfg = p.get(1).cloned().unwrap_or(Value::Null);
        let raw = p.get(0).and_then(|x| x.as_str()).unwrap_or("");
        let enc = cfg.get("encoding").and_then(|x| x.as_str()).unwrap_or("base58");
        let bytes = match enc {
            "base64" => base64::engine::general_purpose::STANDARD.decode(raw).ok(),
            _ => bs58::decode(raw).into_vec().ok(),
        };
        let tx: Option<Transaction> = bytes.and_then(|b| bincode::deserialize(&b).ok());
        let Some(tx) = tx else {
            self.bad(&["C24"], "undecodable-transaction", "the oracle sent something that is not a transaction".into());
            meta.error = true;
            return (RpcAnswer::Rpc(-32602, "invalid transaction".into(), None), meta);
        };
        let sig: [u8; 64] = tx.signatures.first().map(|s| (*s).into()).unwrap_or([0; 64]);
        let _ = task;
        let skip = cfg.get("skipPreflight").and_then(|x| x.as_bool()).unwrap_or(false);
        let bsig = bs58::encode(sig).into_string();
        if accept == Accept::No {
            return (RpcAnswer::Ok(json!(bsig)), meta);
        }
        if !skip {
            if let Err(e) = self.simulate(&tx, &sig) {
                meta.error = true;
                return (RpcAnswer::Rpc(-32002, format!("Transaction simulation failed: {e}"), None), meta);
            }
        }
        self.txs.push(TxRec { tx, sig, done: false });
        let n = self.txs.len() - 1;
        let due = self.now + if accept == Accept::Late { 1200 * MS } else { 10 * MS };
        self.push(due, Kind::Land(n));
        (RpcAnswer::Ok(json!(bsig)), meta)
    }
    fn decompile(&self, tx: &Transaction) -> (Vec<Instruction>, Vec<Pubkey>) {
        let m = &tx.message;
        let keys: Vec<Pubkey> = m.account_keys.iter().map(|k| k.to_bytes().into()).collect();
        let n = keys.len();
        let h = &m.header;
        let signer = |i: usize| i < h.num_required_signatures as usize;
        let writable = |i: usize| {
            if signer(i) {
                i < (h.num_required_signatures - h.num_readonly_signed_accounts) as usize
            } else {
                i < n - h.num_readonly_unsigned_accounts as usize
            }
        };
        let ixs = m
            .instructions
            .iter()
            .map(|c| Instruction {
                program_id: keys.get(c.program_id_index as usize).copied().unwrap_or_default(),
                accounts: c
                    .accounts
                    .iter()
                    .map(|i| solana_program::instruction::AccountMeta {
                        pubkey: keys.get(*i as usize).copied().unwrap_or_default(),
                        is_signer: signer(*i as usize),
                        is_writable: writable(*i as usize),
                    })
                    .collect(),
                data: c.data.clone(),
            })
            .collect();
        (ixs, keys[..(h.num_required_signatures as usize).min(n)].to_vec())
    }
    /// the instructions of a transaction the chain executes (the compute budget is not modelled)
    fn effective(&self, tx: &Transaction) -> (Vec<Instruction>, Vec<Pubkey>) {
        let (i, s) = self.decompile(tx);
        (i.into_iter().filter(|i| i.program_id.to_string() != BUDGET).collect(), s)
    }
    fn admissible(&self, tx: &Transaction, sig: &[u8; 64]) -> Result<(), String> {
        if tx.verify().is_err() {
            return Err("signature verification failure".into());
        }
        if self.sigs.contains_key(sig) {
            return Err("This transaction has already been processed".into());
        }
        let h: [u8; 32] = tx.message.recent_blockhash.to_bytes();
        match self.hashes.get(&h) {
            Some(s) if s + HASH_LIFE >= self.slot() => Ok(()),
            _ => Err("Blockhash not found".into()),
        }
    }
    fn simulate(&mut self, tx: &Transaction, sig: &[u8; 64]) -> Result<(), String> {
        self.admissible(tx, sig)?;
        self.tick_world();
        let (ixs, signers) = self.effective(tx);
        let s = self.w.slot;
        self.would(&ixs, &signers, s)
    }
    /// what executing this on the present chain would give, in the given slot
    fn would(&mut self, ixs: &[Instruction], signers: &[Pubkey], slot: u64) -> Result<(), String> {
        let key = (slot, ix_key(ixs, signers));
        if let Some(r) = self.tried.get(&key) {
            return r.clone();
        }
        let mut w = self.w.clone();
        if w.slot != slot {
            let t = w.time;
            w.set_slot(slot, t, h32(&format!("hash{slot}")));
        }
        let r = w.exec(ixs, signers).map(|_| ()).map_err(|e| format!("{e:?}"));
        self.tried.insert(key, r.clone());
        r
    }

    // ------------------------------------------------------------ monitors

    fn on_send(&mut self, rt: &Rt, task: TaskId, p: &Value) {
        self.sends += 1;
        let raw = p.get(0).and_then(|x| x.as_str()).unwrap_or("");
        let enc = p.get(1).and_then(|c| c.get("encoding")).and_then(|x| x.as_str()).unwrap_or("base58");
        let bytes = match enc {
            "base64" => base64::engine::general_purpose::STANDARD.decode(raw).ok(),
            _ => bs58::decode(raw).into_vec().ok(),
        };
        let Some(tx) = bytes.and_then(|b| bincode::deserialize::<Transaction>(&b).ok()) else { return };
        let sig: [u8; 64] = tx.signatures.first().map(|s| (*s).into()).unwrap_or([0; 64]);
        let (all, signers) = self.decompile(&tx);
        if signers != [me()] || tx.verify().is_err() {
            self.bad(&["C24"], "bad-signature", format!("a transaction signed by {signers:?} instead of just the oracle, or with a bad signature"));
        }
        let mut ixs: Vec<Instruction> = vec![];
        let mut kinds = BTreeSet::new();
        for i in all {
            if i.program_id.to_string() == BUDGET {
                if !kinds.insert(i.data.first().copied()) {
                    self.bad(&["C24"], "compute-limit", "two compute budget instructions of one kind".into());
                }
                match i.data.first() {
                    Some(2) if i.data.len() == 5 => {
                        let n = u32::from_le_bytes(i.data[1..5].try_into().unwrap());
                        if !(50_000..=1_400_000).contains(&n) {
                            self.bad(&["C24"], "compute-limit", format!("compute unit limit of {n}"));
                        }
                    }
                    Some(1 | 3 | 4) => {}
                    _ => self.bad(&["C24"], "compute-limit", "malformed compute budget instruction".into()),
                }
            } else {
                ixs.push(i);
            }
        }
        let pair = self.on_pair(&tx);
        if ixs.len() != 1 || ixs[0].program_id != VRF {
            self.bad(&["C24"], "unexpected-instructions", format!("a transaction with {} instructions besides the compute budget", ixs.len()));
            return;
        }
        let ix = &ixs[0];
        let o = oracle("oracle-a");
        match ix.data.first() {
            Some(4) if ix.data.len() >= 168 => {
                let id: [u8; 32] = ix.data[8..40].try_into().unwrap();
                let pr = Proof {
                    output: ix.data[40..72].try_into().unwrap(),
                    cb: ix.data[72..104].try_into().unwrap(),
                    ch: ix.data[104..136].try_into().unwrap(),
                    s: ix.data[136..168].try_into().unwrap(),
                };
                let Some(r) = self.reqs.get(&id).cloned() else {
                    self.bad(&["C24"], "unknown-request", "a fulfilment of a request that never was in a queue of this oracle".into());
                    return;
                };
                self.sent_for.insert(sig, id);
                let want = prove(o, &id);
                if pr.output != want.output || !verified(&o.pk, &id, &pr) {
                    self.bad(&["C24"], "bad-proof", format!("wrong output or proof for {}", self.name(&id)));
                }
                let rest: Vec<_> = r
                    .metas
                    .iter()
                    .map(|(k, w)| solana_program::instruction::AccountMeta { pubkey: *k, is_signer: false, is_writable: *w })
                    .collect();
                let exp = ix_provide(&o.id, &r.queue, &r.prog, &id, &pr, &rest);
                let keys = |i: &Instruction| i.accounts.iter().map(|m| m.pubkey).collect::<Vec<_>>();
                if keys(&exp) != keys(ix) || ix.data != exp.data {
                    self.bad(&["C24"], "wrong-fulfilment", format!("the fulfilment of {} does not name the accounts and data the request asks for", self.name(&id)));
                }
                let missing: Vec<_> = exp
                    .accounts
                    .iter()
                    .filter(|e| e.is_writable && !ix.accounts.iter().any(|m| m.pubkey == e.pubkey && m.is_writable))
                    .map(|m| m.pubkey)
                    .collect();
                let surplus: Vec<_> = ix
                    .accounts
                    .iter()
                    .filter(|m| m.is_writable && !exp.accounts.iter().any(|e| e.pubkey == m.pubkey && e.is_writable))
                    .map(|m| m.pubkey)
                    .collect();
                if !missing.is_empty() || !surplus.is_empty() {
                    self.bad(&["C24"], "wrong-fulfilment", format!("the fulfilment of {} has wrong access to accounts: read-only {missing:?}, writable {surplus:?}", self.name(&id)));
                }
                // a fulfilment is due while the request is not expired, as seen with the transaction's own pair
                if let Some(s) = pair {
                    if s.saturating_sub(r.slot) > TTL {
                        self.bad(&["C24", "C27"], "fulfilment-of-expired", format!("{} of slot {} was answered with a fulfilment although slot {s} of the blockhash used makes it expired", self.name(&id), r.slot));
                    }
                }
                if !r.resolved && !r.failing {
                    self.tick_world();
                    // a request cannot be answered in its own slot: such an answer is for the next
                    let at = self.w.slot.max(r.slot + 1);
                    if let Err(e) = self.would(&ixs, &signers, at) {
                        self.bad(&["C24"], "not-accepted", format!("the program refuses the fulfilment of {}: {e:?}", self.name(&id)));
                    }
                }
                if rt.alive(task) {
                    let others: Vec<TaskId> =
                        self.workers.get(&id).into_iter().flatten().copied().filter(|t| *t != task && rt.alive(*t)).collect();
                    if !others.is_empty() {
                        self.bad(&["C23"], "two-workers", format!("task {task} answers {} while task {} does too", self.name(&id), others[0]));
                    }
                    self.workers.entry(id).or_default().insert(task);
                }
            }
            Some(9) => {
                let idx = ix.data.get(8).copied().unwrap_or(0);
                let q = queue(&me(), idx);
                let exp = ix_purge(&me(), idx);
                if ix.accounts.iter().map(|m| m.pubkey).ne(exp.accounts.iter().map(|m| m.pubkey)) || ix.data != exp.data || !self.own.iter().any(|o| o.0 == q) {
                    self.bad(&["C24"], "wrong-purge", format!("a purge of queue {idx} with accounts {:?}", ix.accounts));
                    return;
                }
                let Some(s) = pair else { return };
                let expired: Vec<[u8; 32]> =
                    self.reqs.values().filter(|r| r.queue == q && s.saturating_sub(r.slot) > TTL).map(|r| r.id).collect();
                if expired.is_empty() {
                    self.bad(&["C24", "C27"], "purge-of-fresh", format!("a purge of queue {idx} although by slot {s}, which came with the blockhash used, none of its requests is expired"));
                }
                if self.reqs.values().any(|r| r.queue == q && !r.resolved && self.slot().saturating_sub(r.slot) > TTL) {
                    self.tick_world();
                    let at = self.w.slot;
                    if let Err(e) = self.would(&ixs, &signers, at) {
                        self.bad(&["C24"], "not-accepted", format!("the program refuses the purge of queue {idx}: {e:?}"));
                    }
                }
                if rt.alive(task) && !self.workers.values().any(|w| w.contains(&task)) {
                    let set = self.purgers.entry(q).or_default();
                    set.insert(task);
                    let live = set.iter().filter(|t| rt.alive(**t)).count();
                    if live > expired.len().max(1) {
                        self.bad(&["C23"], "two-workers", format!("{live} tasks purge queue {idx} at once, for {} expired request(s)", expired.len()));
                    }
                }
            }
            t => self.bad(&["C24"], "unexpected-instructions", format!("an instruction with tag {t:?}")),
        }
    }
    /// the blockhash of a transaction: must be of the current pair; returns the slot that belongs to it
    fn on_pair(&mut self, tx: &Transaction) -> Option<u64> {
        let h: [u8; 32] = tx.message.recent_blockhash.to_bytes();
        let Some(pos) = self.answers.iter().rposition(|a| a.hash == h) else {
            self.bad(&["C27"], "foreign-blockhash", "a transaction with a blockhash no answer to this process contained".into());
            return None;
        };
        let slot = self.answers[pos].slot;
        let usable = self.pairs.contains(&h) || self.answers.iter().any(|a| a.open && a.hash == h);
        if !usable {
            let s: Vec<u64> = self.answers.iter().filter(|a| self.pairs.contains(&a.hash)).map(|a| a.slot).collect();
            if s.iter().all(|s| *s > slot) {
                self.bad(&["C27"], "stale-pair", format!("a transaction with the blockhash of slot {slot} although refreshes to those of slots {s:?} had completed before"));
            }
        }
        Some(slot)
    }
    fn on_snapshot(&mut self, key: Pubkey, data: &[u8], stream: Option<u64>, at: u64) {
        if !self.own.iter().any(|o| o.0 == key) {
            return;
        }
        let Some(v) = spec::decode_queue(data, &mut vec![]) else { return };
        self.snaps += 1;
        let ids: BTreeMap<_, _> = v.items.iter().map(|i| (i.id, i.slot)).collect();
        self.views.entry(key).or_default().group.push((ids, stream, at));
    }
    /// every delivered snapshot has been processed
    fn settle(&mut self, rt: &Rt) {
        if self.answers.iter().any(|a| a.open) {
            if self.answers.iter().any(|a| a.open && !a.doubt) {
                self.pairs.clear();
            }
            for a in self.answers.iter_mut().filter(|a| a.open) {
                a.open = false;
                self.pairs.insert(a.hash);
            }
        }
        let mut lenient_ids: BTreeSet<[u8; 32]> = BTreeSet::new();
        for (q, v) in self.views.iter_mut() {
            if v.group.is_empty() {
                continue;
            }
            let group = std::mem::take(&mut v.group);
            v.sizes = if group.iter().all(|g| g.1.is_some()) {
                [group.last().unwrap().0.len()].into()
            } else {
                group.iter().map(|g| g.0.len()).collect()
            };
            let same = group.iter().all(|g| g.0 == group[0].0);
            if group.len() > 1 && !same && !group.iter().all(|g| g.1.is_some()) {
                v.lenient = true;
            }
            for r in self.reqs.values().filter(|r| r.queue == *q) {
                let (has, lacks) = (group.iter().any(|g| g.0.contains_key(&r.id)), group.iter().any(|g| !g.0.contains_key(&r.id)));
                if has {
                    self.gone.remove(&r.id);
                } else if lacks {
                    self.gone.insert(r.id);
                }
            }
            // streaming snapshots are processed in order; a group with several sources is handled leniently above
            if !group.iter().all(|g| g.1.is_some()) {
                if let Some(l) = group.last() {
                    self.gone.extend(l.0.keys().filter(|_| false));
                }
            } else if group.len() > 1 {
                let last = &group.last().unwrap().0;
                for r in self.reqs.values().filter(|r| r.queue == *q) {
                    if last.contains_key(&r.id) {
                        self.gone.remove(&r.id);
                    } else {
                        self.gone.insert(r.id);
                    }
                }
            }
            for (ids, stream, at) in group {
                if at < v.newest {
                    v.lenient = true;
                }
                v.newest = v.newest.max(at);
                let left: Vec<_> = v.tracked.iter().filter(|(k, _)| !ids.contains_key(*k)).map(|(k, s)| (*k, *s)).collect();
                for (k, s) in left {
                    v.tracked.remove(&k);
                    if let Some(n) = stream {
                        v.count += 1;
                        v.sum += n.saturating_sub(s) as f64;
                    }
                    lenient_ids.insert(k);
                }
                for (k, s) in ids {
                    v.tracked.entry(k).or_insert(s);
                }
            }
        }
        // nobody works on what has been seen to be gone
        for id in self.gone.clone() {
            let live: Vec<TaskId> = self.workers.get(&id).into_iter().flatten().copied().filter(|t| rt.alive(*t)).collect();
            if !live.is_empty() {
                self.bad(&["C23"], "works-on-gone", format!("task {} still works on {} after the queue updates showed it gone", live[0], self.name(&id)));
            }
        }
    }
    fn freshness(&mut self) {
        if self.last_pair == 0 {
            return;
        }
        let age = self.now.saturating_sub(self.last_pair);
        let quiet = self.now.saturating_sub(self.last_hash_try.max(self.last_pair + 60 * SEC));
        if age > 61 * SEC + 500 * MS && self.pending_hash == 0 && quiet > SEC + 500 * MS {
            self.bad(&["C27"], "not-refreshed", format!("the blockhash is {:.1} s old and no refresh is on its way", age as f64 / 1e9));
        }
    }
    fn check_stats(&mut self, out: Option<(u16, Vec<u8>)>) {
        self.stats_seen += 1;
        let Some((200, body)) = out else {
            self.bad(&["C26"], "no-stats", format!("GET /stats gave {:?}", out.map(|o| o.0)));
            return;
        };
        let Ok(v) = serde_json::from_slice::<Value>(&body) else {
            self.bad(&["C26"], "no-stats", "GET /stats gave no JSON".into());
            return;
        };
        self.log(|| format!("stats {v}"));
        let mut bad: Vec<(&'static str, String)> = vec![];
        for (k, view) in &self.views {
            if view.sizes.is_empty() {
                continue;
            }
            let n = v["queues"].get(k.to_string()).and_then(|x| x.as_u64()).map(|x| x as usize);
            if n.is_none_or(|n| !view.sizes.contains(&n)) {
                bad.push(("queue-size", format!("/stats shows size {n:?} for a queue last seen with {:?}", view.sizes)));
            }
            if view.lenient {
                continue;
            }
            let a = v["avg_response_slots"].get(k.to_string()).and_then(|x| x.as_f64());
            let want = if view.count == 0 { 0.0 } else { view.sum / view.count as f64 };
            if (a.unwrap_or(0.0) - want).abs() > 1e-6 {
                bad.push(("average-latency", format!("/stats shows an average of {a:?} slots; {} requests were seen leaving through notifications, with an average of {want}", view.count)));
            }
        }
        if let Some(o) = v["queues"].as_object() {
            for k in o.keys() {
                if !self.own.iter().any(|q| q.0.to_string() == *k) {
                    bad.push(("foreign-queue", format!("/stats shows {k}, which is no queue of this oracle")));
                }
            }
        }
        for (k, m) in bad {
            self.bad(&["C26"], k, m);
        }
    }
    fn deliver(&mut self, rt: &mut Rt, op: u64, task: TaskId, ans: RpcAnswer, meta: Meta, hash_call: bool) {
        if hash_call {
            self.pending_hash = self.pending_hash.saturating_sub(1);
        }
        if matches!(ans, RpcAnswer::Rpc(..) | RpcAnswer::Io(_)) {
            self.err_to.insert(task, self.now);
        }
        if rt.op_wanted(op) {
            if let Some((hash, slot)) = meta.hash {
                self.answers.push(Answer { hash, slot, task, open: true, doubt: false });
                self.last_pair = self.now;
            }
            for (k, d, s) in &meta.snaps {
                self.on_snapshot(*k, d, None, *s);
            }
            if let Some((sig, true)) = meta.confirmed {
                if let Some(id) = self.sent_for.get(&sig) {
                    self.confirmed.insert((*id, task));
                }
            }
        }
        rt.complete(op, Box::new(ans));
    }
    fn start_stats(&mut self, rt: &mut Rt) {
        let Some(h) = rt.http.as_ref().and_then(|m| m.downcast_ref::<hyper::Handler>()).cloned() else {
            return;
        };
        self.snaps_then = self.snaps;
        let out = Arc::clone(&self.http_out);
        *out.lock().unwrap() = None;
        let f = async move {
            let r = hyper::Request::builder().method("GET").uri("/stats").body(hyper::Body::empty()).unwrap();
            let a = h(r).await;
            *out.lock().unwrap() = a;
        };
        self.http_task = Some(rt.spawn(Box::pin(f), true));
    }
    fn resolved(&self) -> bool {
        self.reqs.values().all(|r| r.resolved || (r.failing && self.slot().saturating_sub(r.slot) <= TTL))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Accept {
    Yes,
    Late,
    No,
}

fn ix_key(ixs: &[Instruction], signers: &[Pubkey]) -> Vec<u8> {
    let mut v = vec![];
    for i in ixs {
        v.extend(i.program_id.as_ref());
        for a in &i.accounts {
            v.extend(a.pubkey.as_ref());
            v.push(a.is_signer as u8 + 2 * a.is_writable as u8);
        }
        v.extend((i.data.len() as u32).to_le_bytes());
        v.extend(&i.data);
    }
    v.extend(signers.iter().flat_map(|s| s.to_bytes()));
    v
}
fn svm_short(id: &[u8; 32]) -> String {
    format!("{:02x}{:02x}{:02x}", id[0], id[1], id[2])
}
fn rpc_filters(f: &[RpcFilterType], data: &[u8]) -> bool {
    f.iter().all(|f| match f {
        RpcFilterType::DataSize(n) => data.len() as u64 == *n,
        RpcFilterType::Memcmp(m) => m.bytes_match(data),
        RpcFilterType::TokenAccountState => false,
    })
}
fn ui_data(data: &[u8], enc: Option<UiAccountEncoding>) -> UiAccountData {
    match enc {
        Some(UiAccountEncoding::Base64) => UiAccountData::Binary(
            base64::engine::general_purpose::STANDARD.encode(data),
            UiAccountEncoding::Base64,
        ),
        Some(UiAccountEncoding::Base58) if data.len() <= 128 => {
            UiAccountData::Binary(bs58::encode(data).into_string(), UiAccountEncoding::Base58)
        }
        Some(UiAccountEncoding::Base58) => {
            UiAccountData::Binary("error: data too large for bs58 encoding".into(), UiAccountEncoding::Base58)
        }
        _ if data.len() <= 128 => UiAccountData::LegacyBinary(bs58::encode(data).into_string()),
        _ => UiAccountData::LegacyBinary("error: data too large for bs58 encoding".into()),
    }
}
fn ui(a: &svm::rt::Acct, enc: Option<UiAccountEncoding>) -> UiAccount {
    UiAccount {
        lamports: a.lamports,
        data: ui_data(&a.data, enc),
        owner: a.owner.to_string(),
        executable: a.executable,
        rent_epoch: u64::MAX,
        space: Some(a.data.len() as u64),
    }
}
fn ui_account(a: &svm::rt::Acct, enc: Option<UiAccountEncoding>) -> Value {
    serde_json::to_value(ui(a, enc)).unwrap()
}
impl Filter {
    fn matches(&self, k: &Pubkey, a: &svm::rt::Acct) -> bool {
        match self {
            Filter::Ws(f, _, owner) => a.owner == *owner && rpc_filters(f, &a.data),
            Filter::Laser(r) => r.accounts.values().any(|f| {
                (f.account.is_empty() || f.account.contains(&k.to_string()))
                    && (f.owner.is_empty() || f.owner.contains(&a.owner.to_string()))
                    && f.filters.iter().all(|f| {
                        use pb::subscribe_request_filter_accounts_filter::Filter as F;
                        use pb::subscribe_request_filter_accounts_filter_memcmp::Data as D;
                        match &f.filter {
                            None => true,
                            Some(F::Datasize(n)) => a.data.len() as u64 == *n,
                            Some(F::Memcmp(m)) => {
                                let b = match &m.data {
                                    Some(D::Bytes(b)) => b.clone(),
                                    Some(D::Base58(s)) => bs58::decode(s).into_vec().unwrap_or_default(),
                                    Some(D::Base64(s)) => {
                                        base64::engine::general_purpose::STANDARD.decode(s).unwrap_or_default()
                                    }
                                    None => vec![],
                                };
                                a.data.get(m.offset as usize..).is_some_and(|d| d.starts_with(&b))
                            }
                            Some(_) => false,
                        }
                    })
            }),
        }
    }
}

impl Env for Sim {
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any> {
        self
    }
    fn choose(&mut self, p: Point, n: usize, what: &str) -> usize {
        let i = self.points.len();
        self.points.push(n.min(u16::MAX as usize) as u16);
        let c = self.devs.get(&i).copied().unwrap_or(0).min(n - 1);
        if c != 0 {
            if p == Point::Preempt {
                self.last_fault = self.last_fault.max(self.now);
            }
            self.log(|| format!("choice {i}: {c} of {n} ({p:?}: {what})"));
        } else {
            self.log(|| format!("  [{i}] {p:?} {n}: {what}"));
        }
        c
    }
    fn next_due(&self) -> Option<u64> {
        self.events.first().map(|e| e.due)
    }
    fn alts(&mut self) -> usize {
        if self.over || self.final_stats > 0 {
            return 1;
        }
        let e = &self.events[0];
        let n = self.own_alts(e);
        if n == 0 {
            return 1;
        }
        // other events may come first
        let horizon = e.due + 2 * SEC;
        let early = self
            .events
            .iter()
            .skip(1)
            .filter(|o| o.due <= horizon && matches!(o.kind, Kind::Rpc { .. } | Kind::Notify { .. } | Kind::Land(_) | Kind::Late { .. }))
            .count();
        n + early
    }
    fn fire(&mut self, rt: &mut Rt, alt: usize) {
        let n = self.own_alts(&self.events[0]).max(1);
        let (idx, alt) = if alt < n {
            (0, alt)
        } else {
            let horizon = self.events[0].due + 2 * SEC;
            let j = self
                .events
                .iter()
                .enumerate()
                .skip(1)
                .filter(|(_, o)| o.due <= horizon && matches!(o.kind, Kind::Rpc { .. } | Kind::Notify { .. } | Kind::Land(_) | Kind::Late { .. }))
                .nth(alt - n)
                .map(|x| x.0)
                .unwrap_or(0);
            (j, 0)
        };
        let e = self.events.remove(idx);
        self.now = rt.now;
        if alt != 0 {
            self.fault();
        }
        let due = e.due;
        match e.kind {
            Kind::Rpc { op, task, call } => {
                let hash_call = call.method == "getLatestBlockhash";
                if !rt.op_wanted(op) {
                    if hash_call {
                        self.pending_hash = self.pending_hash.saturating_sub(1);
                    }
                    // the request was made all the same
                    if call.method == "sendTransaction" {
                        let _ = self.evaluate(task, &call, false, Accept::Yes);
                    }
                    return;
                }
                let err = || RpcAnswer::Io("connection reset".into());
                let late = 700 * MS;
                if self.outage() {
                    self.log(|| format!("{} of task {task}: outage", call.method));
                    self.deliver(rt, op, task, err(), Meta { error: true, ..Meta::default() }, hash_call);
                    return;
                }
                // (answer, delay)
                let (ans, meta, delay) = match (call.method.as_str(), alt) {
                    (_, 1) => (err(), Meta { error: true, ..Meta::default() }, 0),
                    ("sendTransaction", 2) => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::No);
                        (a, m, 0)
                    }
                    ("sendTransaction", 3) => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::Late);
                        (a, m, 0)
                    }
                    ("sendTransaction", 4) => {
                        let _ = self.evaluate(task, &call, false, Accept::Yes);
                        (err(), Meta { error: true, ..Meta::default() }, 0)
                    }
                    ("getSignatureStatuses", 2) => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::No);
                        (a, m, 0)
                    }
                    ("getLatestBlockhash", 2) => {
                        let (a, m) = self.evaluate(task, &call, true, Accept::Yes);
                        (a, m, 0)
                    }
                    ("getProgramAccounts", 2) => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::Yes);
                        (a, m, 3 * SEC)
                    }
                    (_, 0) => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::Yes);
                        (a, m, 0)
                    }
                    _ => {
                        let (a, m) = self.evaluate(task, &call, false, Accept::Yes);
                        (a, m, late)
                    }
                };
                self.log(|| {
                    let what = match &ans {
                        RpcAnswer::Ok(_) => "ok".to_string(),
                        RpcAnswer::Rpc(_, m, _) => m.clone(),
                        RpcAnswer::Io(m) => m.clone(),
                    };
                    format!("{} of task {task}: alternative {alt}, delay {} ms: {what}", call.method, delay / MS)
                });
                if delay == 0 {
                    self.deliver(rt, op, task, ans, meta, hash_call);
                } else {
                    let due = self.now + delay;
                    self.last_fault = self.last_fault.max(due);
                    self.push(due, Kind::Late { op, task, ans, meta });
                }
            }
            Kind::Late { op, task, ans, meta } => {
                self.log(|| format!("late answer to task {task}"));
                let h = meta.hash.is_some();
                self.deliver(rt, op, task, ans, meta, h);
            }
            Kind::Subscribe { op, call } => {
                if alt == 1 || self.outage() {
                    self.log(|| "subscription refused".into());
                    rt.complete(op, Box::new(SubscribeAnswer(Err("refused".into()))));
                    return;
                }
                let chan = rt.new_chan();
                let cfg: Option<RpcProgramAccountsConfig> = call.config;
                let f = cfg.as_ref().and_then(|c| c.filters.clone()).unwrap_or_default();
                let enc = cfg.as_ref().and_then(|c| c.account_config.encoding);
                self.subs.push(Sub {
                    chan,
                    laser: false,
                    alive: true,
                    filter: Filter::Ws(f, enc, call.program.to_bytes().into()),
                    sent: Default::default(),
                });
                self.log(|| "subscribed".into());
                rt.complete(op, Box::new(SubscribeAnswer(Ok(chan))));
            }
            Kind::Land(n) => {
                if alt == 1 {
                    let due = self.now + 800 * MS;
                    self.push(due, Kind::Land(n));
                    return;
                }
                let (tx, sig) = (self.txs[n].tx.clone(), self.txs[n].sig);
                self.txs[n].done = true;
                if let Err(e) = self.admissible(&tx, &sig) {
                    self.log(|| format!("transaction {n} dropped: {e}"));
                    return;
                }
                let (ixs, signers) = self.effective(&tx);
                let before = self.w.clone();
                let pend: Vec<[u8; 32]> = self.reqs.values().filter(|r| !r.resolved).map(|r| r.id).collect();
                let ok = self.execute(&ixs, &signers);
                self.landed += 1;
                self.log(|| format!("transaction {n} landed: {ok}"));
                let slot = self.slot();
                self.sigs.insert(sig, (slot, ok));
                if ok {
                    let done: Vec<[u8; 32]> = pend.into_iter().filter(|i| self.reqs[i].resolved).collect();
                    self.answered += done.len() as u64;
                    if self.setup.rollback && !self.offer_rollback {
                        self.offer_rollback = true;
                        self.undo = Some((before, done, sig));
                        let due = self.now + 300 * MS;
                        let i = self.setup.script.len();
                        self.push(due, Kind::Script(i));
                    }
                }
            }
            Kind::Notify { sub, key, data, owner, slot } => {
                if !self.subs[sub].alive {
                    return;
                }
                match alt {
                    1 => {
                        self.log(|| "notification lost".into());
                        return;
                    }
                    2 => {
                        let due = self.now + 500 * MS;
                        self.last_fault = self.last_fault.max(due);
                        self.push(due, Kind::Notify { sub, key, data: data.clone(), owner, slot });
                    }
                    3 => {
                        let due = self.now + 1200 * MS;
                        self.last_fault = self.last_fault.max(due);
                        self.push(due, Kind::Notify { sub, key, data, owner, slot });
                        return;
                    }
                    4 => {
                        self.log(|| "stream disconnected".into());
                        self.subs[sub].alive = false;
                        rt.chan_close(self.subs[sub].chan);
                        return;
                    }
                    _ => {}
                }
                let s = &mut self.subs[sub];
                let chan = s.chan;
                s.sent.push_back(is_queue(&data).then(|| (key, data.clone(), slot)));
                if s.laser {
                    let u = pb::SubscribeUpdate {
                        filters: vec!["oracle".into()],
                        created_at: None,
                        update_oneof: Some(pb::subscribe_update::UpdateOneof::Account(pb::SubscribeUpdateAccount {
                            account: Some(pb::SubscribeUpdateAccountInfo {
                                pubkey: key.to_bytes().to_vec(),
                                lamports: 1,
                                owner: owner.to_bytes().to_vec(),
                                data,
                                ..Default::default()
                            }),
                            slot,
                            is_startup: false,
                        })),
                    };
                    let item: helius_laserstream::Item = Ok(u);
                    rt.chan_send(chan, Box::new(item));
                } else {
                    let Filter::Ws(_, enc, _) = &s.filter else { unreachable!() };
                    let m = Response {
                        context: RpcResponseContext { slot, api_version: None },
                        value: RpcKeyedAccount {
                            pubkey: key.to_string(),
                            account: UiAccount {
                                lamports: 1,
                                data: ui_data(&data, *enc),
                                owner: owner.to_string(),
                                executable: false,
                                rent_epoch: u64::MAX,
                                space: Some(data.len() as u64),
                            },
                        },
                    };
                    rt.chan_send(chan, Box::new(m));
                }
                self.log(|| format!("notification of slot {slot} put in"));
            }
            Kind::Script(i) if i >= self.setup.script.len() => {
                // a fork switch, offered as an alternative
                if alt == 1 {
                    if let Some((w, ids, sig)) = self.undo.take() {
                        self.tried.clear();
                        let (slot, time, sh) = (self.w.slot, self.w.time, self.w.slothash);
                        let old = std::mem::replace(&mut self.w, w);
                        self.w.set_slot(slot, time, sh);
                        let keys: Vec<Pubkey> = self.own.iter().map(|o| o.0).filter(|k| old.get(k) != self.w.get(k)).collect();
                        self.sigs.remove(&sig);
                        self.log(|| format!("fork switch: {} answer(s) taken back", ids.len()));
                        self.learn();
                        let s = self.slot();
                        self.notify(&keys, s);
                    }
                }
            }
            Kind::Script(i) => {
                self.script_left -= 1;
                self.last_fault = self.last_fault.max(self.now);
                let act = self.setup.script[i].1.clone();
                self.log(|| format!("script {i}"));
                match act {
                    Act::Tx(ixs, signers) => {
                        let n = self.reqs.len();
                        let ok = self.execute(&ixs, &signers);
                        self.log(|| format!("user transaction {i}: {ok}"));
                        let _ = n;
                    }
                    Act::AnswerElsewhere(idx) => {
                        let q = queue(&me(), idx);
                        let r = spec::decode_queue(self.w.data(&q), &mut vec![]).and_then(|v| v.items.first().map(|i| i.id));
                        if let Some(r) = r.and_then(|id| self.reqs.get(&id).cloned()) {
                            let o = oracle("oracle-a");
                            let rest: Vec<_> = r
                                .metas
                                .iter()
                                .map(|(k, w)| solana_program::instruction::AccountMeta { pubkey: *k, is_signer: false, is_writable: *w })
                                .collect();
                            let ix = ix_provide(&o.id, &r.queue, &r.prog, &r.id, &prove(o, &r.id), &rest);
                            let ok = self.execute(&[ix], &[o.id]);
                            self.log(|| format!("answered elsewhere: {ok}"));
                        }
                    }
                    Act::Junk(k, owner, data) => {
                        self.tried.clear();
                        self.w.put(k, svm::rt::Acct { lamports: RICH, owner, executable: false, data });
                        let s = self.slot();
                        self.notify(&[k], s);
                    }
                    Act::Stats => self.want_stats = true,
                }
            }
        }
        let _ = due;
    }
    fn issue(&mut self, rt: &mut Rt, op: Op) {
        self.now = rt.now;
        let due = rt.now + RPC_LATENCY;
        let what = match op.what.downcast::<RpcCall>() {
            Ok(c) => {
                if c.method == "getLatestBlockhash" {
                    self.last_hash_try = rt.now;
                    self.pending_hash += 1;
                }
                self.log(|| format!("task {} calls {}", op.task, c.method));
                if c.method == "sendTransaction" {
                    self.on_send(rt, op.task, &c.params);
                }
                self.push(due, Kind::Rpc { op: op.id, task: op.task, call: *c });
                return;
            }
            Err(w) => w,
        };
        let what = match what.downcast::<SubscribeCall>() {
            Ok(c) => {
                self.log(|| format!("task {} subscribes", op.task));
                self.push(due, Kind::Subscribe { op: op.id, call: *c });
                return;
            }
            Err(w) => w,
        };
        if let Ok(c) = what.downcast::<helius_laserstream::StreamCall>() {
            self.log(|| format!("task {} opens a stream", op.task));
            self.subs.push(Sub {
                chan: c.chan,
                laser: true,
                alive: true,
                filter: Filter::Laser(c.request),
                sent: Default::default(),
            });
        }
    }
    fn consumed(&mut self, rt: &mut Rt, task: TaskId, chan: u64, _msg: &mcrt::Msg) {
        self.now = rt.now;
        let Some(s) = self.subs.iter_mut().find(|s| s.chan == chan) else { return };
        let Some(Some((key, data, slot))) = s.sent.pop_front() else { return };
        self.log(|| format!("task {task} takes a notification of slot {slot}"));
        self.on_snapshot(key, &data, Some(slot), slot);
    }
    fn chan_dropped(&mut self, _rt: &mut Rt, chan: u64) {
        if let Some(s) = self.subs.iter_mut().find(|s| s.chan == chan) {
            s.alive = false;
        }
    }
    fn ended(&mut self, rt: &mut Rt, t: TaskId, how: End) {
        self.now = rt.now;
        self.log(|| format!("task {t} ended: {how:?}"));
        if Some(t) == self.http_task {
            self.http_task = None;
            let out = self.http_out.lock().unwrap().take();
            // (updates which came meanwhile may be in the answer, or not)
            let judged = self.snaps == self.snaps_then;
            if judged {
                self.check_stats(out);
            }
            if self.final_stats == 1 {
                self.final_stats = if judged { 2 } else { 0 };
            }
            return;
        }
        if t == self.main {
            // the process is gone; a supervisor starts it again
            let excused = self.err_to.get(&t).is_some_and(|e| rt.now - e <= MS);
            if !excused {
                self.bad(&["C24", "C25"], "service-stopped", format!("the service ended ({how:?}) although no RPC request of its start-up had failed"));
            }
            self.crashes += 1;
            self.fault();
            rt.kill_all();
            for s in &mut self.subs {
                s.alive = false;
            }
            self.answers.clear();
            self.pairs.clear();
            self.workers.clear();
            self.purgers.clear();
            self.gone.clear();
            self.views.clear();
            self.confirmed.clear();
            self.last_pair = 0;
            self.pending_hash = 0;
            if self.crashes < 5 {
                self.main = rt.spawn(
                    Box::pin(async {
                        mcrt::sleep_ns(SEC).await;
                        service().await
                    }),
                    false,
                );
            }
            return;
        }
        if how != End::Done {
            for a in self.answers.iter_mut().filter(|a| a.task == t && a.open) {
                a.doubt = true;
            }
        }
        if how == End::Done {
            // a worker that gave up: its request is tracked anew when it is seen again
            for (id, ws) in &self.workers {
                if ws.contains(&t) && !self.confirmed.contains(&(*id, t)) {
                    if let Some(q) = self.reqs.get(id).map(|r| r.queue) {
                        if let Some(v) = self.views.get_mut(&q) {
                            v.lenient = true;
                        }
                    }
                }
            }
        }
    }
    fn quiet(&mut self, rt: &mut Rt, full: bool) {
        self.now = rt.now;
        if full {
            self.settle(rt);
            if self.want_stats && self.http_task.is_none() {
                self.want_stats = false;
                self.start_stats(rt);
                return;
            }
        }
        self.freshness();
        if self.final_stats == 2 {
            self.over = true;
            return;
        }
        if self.script_left > 0 {
            return;
        }
        let resolved = self.resolved();
        let ran = self.now - SEC;
        let waited = self.now.saturating_sub(self.last_fault.max(SEC));
        // workers on requests that cannot be answered go on for ever
        let hopeless = |id: &[u8; 32]| self.reqs.get(id).is_some_and(|r| r.failing && !r.resolved);
        let stuck: BTreeSet<TaskId> =
            self.workers.iter().filter(|(id, _)| hopeless(id)).flat_map(|(_, w)| w.iter().copied()).collect();
        let busy = self
            .workers
            .iter()
            .filter(|(id, _)| !hopeless(id))
            .flat_map(|(_, w)| w)
            .chain(self.purgers.values().flatten())
            .any(|t| rt.alive(*t) && !stuck.contains(t))
            || self.events.iter().any(|e| match &e.kind {
                Kind::Script(_) => false,
                Kind::Land(_) => stuck.is_empty(),
                Kind::Rpc { task, .. } | Kind::Late { task, .. } => !stuck.contains(task),
                _ => true,
            });
        let unseen = self.reqs.values().any(|r| {
            r.resolved && self.views.get(&r.queue).is_some_and(|v| v.tracked.contains_key(&r.id))
        });
        let drained = resolved && !busy && !unseen && waited > SEC && ran >= self.setup.min * MS;
        let timeout = waited > self.setup.settle * MS && ran >= self.setup.min * MS;
        if (drained || timeout) && self.final_stats == 0 && full {
            if !resolved {
                let left: Vec<String> = self
                    .reqs
                    .values()
                    .filter(|r| !r.resolved && !(r.failing && self.slot().saturating_sub(r.slot) <= TTL))
                    .map(|r| format!("{}{}", self.name(&r.id), if r.rolled_back { " (its answer was taken back by a fork switch)" } else { "" }))
                    .collect();
                let all_rb = self.reqs.values().all(|r| r.resolved || r.rolled_back);
                self.bad(
                    &["C25"],
                    if all_rb { "unanswered-after-fork" } else { "unanswered" },
                    format!("{} still unanswered {} s after the last fault or request", left.join(", "), self.setup.settle / 1000),
                );
            } else if timeout && !drained {
                let ws: Vec<String> = self
                    .workers
                    .iter()
                    .filter(|(id, w)| self.reqs.get(*id).is_some_and(|r| r.resolved) && w.iter().any(|t| rt.alive(*t)))
                    .map(|(id, _)| self.name(id))
                    .collect();
                if !ws.is_empty() {
                    self.bad(&["C23"], "works-on-gone", format!("still working on {} {} s after the last fault or request", ws.join(", "), self.setup.settle / 1000));
                }
            }
            if self.setup.stats && rt.http.is_some() {
                self.final_stats = 1;
                self.start_stats(rt);
                if self.http_task.is_none() {
                    self.over = true;
                }
            } else {
                self.over = true;
            }
        }
    }
    fn over(&self) -> bool {
        self.over
    }
}

impl Sim {
    /// number of alternatives of an event itself (0: no choice is offered here at all)
    fn own_alts(&self, e: &Event) -> usize {
        match &e.kind {
            Kind::Rpc { call, .. } => match call.method.as_str() {
                "sendTransaction" => 6,
                "getSignatureStatuses" | "getLatestBlockhash" => 4,
                "getProgramAccounts" => 4,
                _ => 2,
            },
            Kind::Subscribe { .. } => 2,
            Kind::Notify { .. } => 5,
            Kind::Land(_) => 2,
            Kind::Late { .. } => 1,
            Kind::Script(i) if *i >= self.setup.script.len() => 2,
            Kind::Script(_) => 0,
        }
    }
}
