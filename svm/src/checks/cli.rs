//! The real vrf-cli binary against a stub RPC node on loopback: commands x arguments x ledgers x RPC fault sequences.
//! The node executes what it receives on the mini-SVM (the real program), and the effect is compared with the effect
//! of the operation the operator asked for, built by the harness from the documented wire format.
use crate::dlp;
use crate::engine::*;
use crate::rt::*;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::transaction::VersionedTransaction;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ base64 / base58
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let (mut n, mut bits, mut out) = (0u32, 0, vec![]);
    for c in s.bytes().filter(|c| *c != b'=') {
        n = n << 6 | B64.iter().position(|x| *x == c)? as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((n >> bits) as u8);
            n &= (1 << bits) - 1;
        }
    }
    Some(out)
}
fn unb58(s: &str) -> Option<Vec<u8>> {
    let abc = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for c in s.bytes() {
        let mut carry = abc.iter().position(|x| *x == c)? as u32;
        for b in out.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    out.extend(s.bytes().take_while(|c| *c == b'1').map(|_| 0));
    out.reverse();
    Some(out)
}

// ------------------------------------------------------------------ the node
/// how the node treats one request
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Error,
    Http500,
    Close,
    Garbage,
    /// a transaction is accepted and executed, the answer is lost
    LostReply,
    /// a transaction is acknowledged and never executed
    Dropped,
    /// a status: not yet known
    NotYet,
    /// a status: failed on chain
    Failed,
    /// a status: processed, not yet confirmed; then a fork switch takes the transaction back for good
    Forked,
}
fn faults(method: &str) -> Vec<Fault> {
    let mut v = vec![Fault::None, Fault::Error, Fault::Http500, Fault::Close, Fault::Garbage];
    match method {
        "sendTransaction" => v.extend([Fault::LostReply, Fault::Dropped]),
        "getSignatureStatuses" => v.extend([Fault::NotYet, Fault::Failed, Fault::Forked]),
        _ => {}
    }
    v
}
struct Rpc {
    method: String,
    fault: Fault,
}
struct Node {
    w: World,
    script: Vec<Fault>,
    calls: Vec<Rpc>,
    /// raw transactions received, in order
    txs: Vec<Vec<u8>>,
    /// outcome of those that were executed: (signature, accepted)
    landed: Vec<(String, bool)>,
    dropped: Vec<String>,
    /// a status "processed without error" was handed out
    confirmed: Vec<String>,
    problems: Vec<String>,
    accounts_asked: Vec<Pubkey>,
}
fn to_ixs(t: &VersionedTransaction) -> (Vec<Instruction>, Vec<Pubkey>) {
    let m = &t.message;
    let keys: Vec<Pubkey> = m.static_account_keys().to_vec();
    let ns = m.header().num_required_signatures as usize;
    let ro_s = m.header().num_readonly_signed_accounts as usize;
    let ro_u = m.header().num_readonly_unsigned_accounts as usize;
    let writable = |i: usize| if i < ns { i < ns - ro_s } else { i < keys.len() - ro_u };
    let ixs = m
        .instructions()
        .iter()
        .map(|c| Instruction {
            program_id: keys[c.program_id_index as usize],
            accounts: c
                .accounts
                .iter()
                .map(|a| {
                    let i = *a as usize;
                    AccountMeta { pubkey: keys[i], is_signer: i < ns, is_writable: writable(i) }
                })
                .collect(),
            data: c.data.clone(),
        })
        .collect();
    (ixs, keys[..ns].to_vec())
}
fn is_budget(k: &Pubkey) -> bool {
    k.to_string() == "ComputeBudget111111111111111111111111111111"
}
/// what the runtime requires of the compute budget instructions: no kind twice, and enough for the least any instruction
/// of the program does (an address derivation costs 1500 units, a call to the system program 1000)
fn budget_ok(ixs: &[Instruction]) -> bool {
    let mut kinds = vec![];
    let mut real = 0;
    for i in ixs {
        if !is_budget(&i.program_id) {
            real += 1;
            continue;
        }
        let Some(k) = i.data.first() else { return false };
        if kinds.contains(k) {
            return false;
        }
        kinds.push(*k);
    }
    let limit = ixs.iter().find(|i| is_budget(&i.program_id) && i.data.len() == 5 && i.data[0] == 2).map(|i| u32::from_le_bytes(i.data[1..5].try_into().unwrap()));
    limit.is_none_or(|l| l >= 2_500 * real)
}
const HASH: &str = "4uhcVJyU9pJkvQyS88uRDiswHXSCkY3zQawwpjk2NsNY";
impl Node {
    /// None: close the connection without an answer
    fn answer(&mut self, method: &str, params: &Value) -> Option<Value> {
        let n = self.calls.len();
        let f = self.script.get(n).copied().unwrap_or(Fault::None);
        self.calls.push(Rpc { method: method.into(), fault: f });
        let ctx = json!({"slot": self.w.slot, "apiVersion": "3.0.0"});
        let ok = |v: Value| json!({"result": v});
        if method == "sendTransaction" {
            let raw = params[0].as_str().map(|s| if params[1]["encoding"] == "base64" { unb64(s) } else { unb58(s) });
            let Some(Some(raw)) = raw else {
                return Some(json!({"error": {"code": -32602, "message": "invalid transaction encoding"}}));
            };
            self.txs.push(raw.clone());
            if !matches!(f, Fault::None | Fault::LostReply | Fault::Dropped) {
                return self.faulty(f);
            }
            let Ok(t) = bincode::deserialize::<VersionedTransaction>(&raw) else {
                return Some(json!({"error": {"code": -32602, "message": "failed to deserialize transaction"}}));
            };
            if raw.len() > 1232 {
                return Some(json!({"error": {"code": -32602, "message": format!("base64 encoded transaction too large: {} bytes", raw.len())}}));
            }
            if t.verify_with_results().iter().any(|x| !x) || t.message.recent_blockhash().to_string() != HASH {
                return Some(json!({"error": {"code": -32003, "message": "Transaction signature verification failure"}}));
            }
            let sig = t.signatures[0].to_string();
            if f == Fault::Dropped {
                self.dropped.push(sig.clone());
                return Some(ok(json!(sig)));
            }
            if !self.landed.iter().any(|(s, _)| *s == sig) {
                let (ixs, signers) = to_ixs(&t);
                let enough = budget_ok(&ixs);
                let ixs: Vec<Instruction> = ixs.into_iter().filter(|i| !is_budget(&i.program_id)).collect();
                let r = if enough { self.w.exec(&ixs, &signers).map(|_| ()).map_err(|e| format!("{e:?}")) } else { Err("compute budget".into()) };
                self.landed.push((sig.clone(), r.is_ok()));
                if let Err(e) = r {
                    self.landed.pop();
                    return Some(json!({"error": {"code": -32002, "message": format!("Transaction simulation failed: {e:?}"),
                        "data": {"accounts": null, "err": {"InstructionError": [0, "InvalidArgument"]}, "logs": [], "unitsConsumed": 0, "returnData": null, "innerInstructions": null, "replacementBlockhash": null}}}));
                }
            }
            if f == Fault::LostReply {
                return None;
            }
            return Some(ok(json!(sig)));
        }
        if !matches!(f, Fault::None | Fault::NotYet | Fault::Failed | Fault::Forked) {
            return self.faulty(f);
        }
        Some(match method {
            "getLatestBlockhash" => ok(json!({"context": ctx, "value": {"blockhash": HASH, "lastValidBlockHeight": self.w.slot + 150}})),
            "getAccountInfo" => {
                let k: Option<Pubkey> = params[0].as_str().and_then(|s| s.parse().ok());
                let Some(k) = k else { return Some(json!({"error": {"code": -32602, "message": "Invalid param: Invalid"}})) };
                self.accounts_asked.push(k);
                let v = self.w.get(&k).filter(|a| a.lamports > 0 || !a.data.is_empty()).map(|a| {
                    json!({"lamports": a.lamports, "data": [b64(&a.data), "base64"], "owner": a.owner.to_string(),
                        "executable": a.executable, "rentEpoch": 18446744073709551615u64, "space": a.data.len()})
                });
                ok(json!({"context": ctx, "value": v}))
            }
            "getMultipleAccounts" => {
                let mut out = vec![];
                for k in params[0].as_array().cloned().unwrap_or_default() {
                    let Some(k) = k.as_str().and_then(|s| s.parse::<Pubkey>().ok()) else { out.push(Value::Null); continue };
                    self.accounts_asked.push(k);
                    out.push(self.w.get(&k).map(|a| {
                        json!({"lamports": a.lamports, "data": [b64(&a.data), "base64"], "owner": a.owner.to_string(),
                        "executable": a.executable, "rentEpoch": 18446744073709551615u64, "space": a.data.len()})
                    }).unwrap_or(Value::Null));
                }
                ok(json!({"context": ctx, "value": out}))
            }
            "getSignatureStatuses" => {
                let mut out = vec![];
                for s in params[0].as_array().cloned().unwrap_or_default() {
                    let s = s.as_str().unwrap_or("").to_string();
                    let known = self.landed.iter().any(|(x, _)| *x == s) && !self.dropped.contains(&s) && f != Fault::NotYet;
                    if f == Fault::Forked && known {
                        self.dropped.push(s);
                        out.push(json!({"slot": self.w.slot, "confirmations": 0, "err": null, "status": {"Ok": null}, "confirmationStatus": "processed"}));
                        continue;
                    }
                    let err = if f == Fault::Failed { json!({"InstructionError": [1, {"Custom": 0}]}) } else { Value::Null };
                    if known && f != Fault::Failed {
                        self.confirmed.push(s.clone());
                    }
                    let status = if err.is_null() { json!({"Ok": null}) } else { json!({"Err": err}) };
                    out.push(if known {
                        json!({"slot": self.w.slot, "confirmations": 1, "err": err, "status": status, "confirmationStatus": "confirmed"})
                    } else {
                        Value::Null
                    });
                }
                ok(json!({"context": ctx, "value": out}))
            }
            // a blockhash whose transaction was dropped has expired by the time the client asks
            "isBlockhashValid" => ok(json!({"context": ctx, "value": self.dropped.is_empty()})),
            "getVersion" => ok(json!({"solana-core": "3.0.0", "feature-set": 1})),
            "requestAirdrop" => ok(json!("1".repeat(64))),
            "getSlot" | "getBlockHeight" => ok(json!(self.w.slot)),
            "getHealth" => ok(json!("ok")),
            m => {
                self.problems.push(format!("the stub node does not implement {m}"));
                json!({"error": {"code": -32601, "message": "Method not found"}})
            }
        })
    }
    fn faulty(&self, f: Fault) -> Option<Value> {
        match f {
            Fault::Error => Some(json!({"error": {"code": -32005, "message": "Node is unhealthy", "data": {"numSlotsBehind": 42}}})),
            Fault::Http500 => Some(json!({"http": 500})),
            Fault::Garbage => Some(json!({"result": {"unexpected": true}})),
            _ => None,
        }
    }
}
fn serve(mut s: TcpStream, node: &Mutex<Node>) {
    let _ = s.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 65536];
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            match s.read(&mut tmp) {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend(&tmp[..n]),
            }
        };
        let h = String::from_utf8_lossy(&buf[..head]).to_lowercase();
        let len: usize =
            h.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse().ok()).unwrap_or(0);
        while buf.len() < head + len {
            match s.read(&mut tmp) {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend(&tmp[..n]),
            }
        }
        let body: Value = serde_json::from_slice(&buf[head..head + len]).unwrap_or(Value::Null);
        buf.drain(..head + len);
        let a = node.lock().unwrap().answer(body["method"].as_str().unwrap_or(""), &body["params"]);
        let Some(mut a) = a else {
            let _ = s.shutdown(std::net::Shutdown::Both);
            return;
        };
        let (status, payload) = if a["http"] == 500 {
            ("500 Internal Server Error", "upstream failure".to_string())
        } else {
            a["jsonrpc"] = json!("2.0");
            a["id"] = body["id"].clone();
            ("200 OK", a.to_string())
        };
        let r = format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{payload}", payload.len());
        if s.write_all(r.as_bytes()).is_err() {
            return;
        }
    }
}

// ------------------------------------------------------------------ one run
#[derive(Clone)]
pub struct Case {
    pub label: String,
    pub world: Arc<World>,
    pub signer: Option<&'static str>,
    pub raw_key: Option<String>,
    pub args: Vec<String>,
    pub want: Want,
    /// pass the key and the node's address by environment instead of by option
    pub env: bool,
}
#[derive(Clone)]
pub enum Want {
    /// the effect of these instructions, signed by the configured key
    Op(Vec<Instruction>),
    /// a queue of the oracle, of a size the CLI chooses
    DefaultQueue(Pubkey, u8),
    /// nothing may be submitted, and it fails
    Refuse,
    /// whatever is submitted, if anything, has no effect, and it fails
    NoEffect,
    /// nothing is submitted; the output names these (words of one line each)
    Show(Vec<Vec<String>>, Vec<String>),
}
pub struct RunOut {
    node: Node,
    ok: bool,
    out: String,
    hung: bool,
}
pub fn bin() -> std::path::PathBuf {
    crate::report::root().join("target/cli/debug/vrf-cli")
}
fn run(c: &Case, script: &[Fault]) -> RunOut {
    let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let addr = l.local_addr().unwrap();
    let node = Arc::new(Mutex::new(Node {
        w: (*c.world).clone(),
        script: script.to_vec(),
        calls: vec![],
        txs: vec![],
        landed: vec![],
        dropped: vec![],
        confirmed: vec![],
        problems: vec![],
        accounts_asked: vec![],
    }));
    let stop = Arc::new(AtomicBool::new(false));
    let (n2, s2) = (node.clone(), stop.clone());
    let th = std::thread::spawn(move || {
        let mut hs = vec![];
        for s in l.incoming() {
            if s2.load(Ordering::SeqCst) {
                break;
            }
            let Ok(s) = s else { continue };
            let n = n2.clone();
            hs.push((s.try_clone().ok(), std::thread::spawn(move || serve(s, &n))));
        }
        for (s, h) in hs {
            if let Some(s) = s {
                let _ = s.shutdown(std::net::Shutdown::Both);
            }
            let _ = h.join();
        }
    });
    let mut cmd = Command::new(bin());
    cmd.env_clear().env("HOME", "/nonexistent").env("RUST_BACKTRACE", "0");
    let url = format!("http://{addr}");
    let key = c.raw_key.clone().or(c.signer.map(|s| keypair(s).to_base58_string()));
    if c.env {
        cmd.env("RPC_URL", &url);
        if let Some(k) = &key {
            cmd.env("KEYPAIR_BASE58", k);
        }
    } else {
        cmd.args(["--rpc-url", &url]);
        if let Some(k) = &key {
            cmd.args(["--keypair", k]);
        }
    }
    cmd.args(&c.args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = cmd.spawn().expect("vrf-cli");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        s
    });
    let start = Instant::now();
    let mut hung = false;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > Duration::from_secs(60) {
            hung = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = String::from_utf8_lossy(&t1.join().unwrap()).to_string();
    let err = String::from_utf8_lossy(&t2.join().unwrap()).to_string();
    stop.store(true, Ordering::SeqCst);
    let _ = TcpStream::connect(addr);
    let _ = th.join();
    let node = Arc::try_unwrap(node).ok().expect("node").into_inner().unwrap();
    let _ = err;
    if start.elapsed() > Duration::from_millis(1500) && std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("slow {:?}: {} {script:?} [{}] {}", start.elapsed(), c.label, node.calls.iter().map(|x| format!("{}={:?}", x.method, x.fault)).collect::<Vec<_>>().join(", "), err.replace('\n', " | "));
    }
    RunOut { node, ok: st.success(), out, hung }
}

fn judge(c: &Case, r: &RunOut, v: &mut Vec<Viol>) {
    let mut bad = |kind: &str, msg: String| {
        v.push(viol(
            &["C30"],
            kind,
            format!(
                "{msg} [RPC: {}]",
                r.node.calls.iter().map(|x| if x.fault == Fault::None { x.method.clone() } else { format!("{}={:?}", x.method, x.fault) }).collect::<Vec<_>>().join(", ")
            ),
        ))
    };
    if r.hung {
        bad("hangs", "the command does not end".into());
        return;
    }
    let faulty = r.node.calls.iter().any(|x| x.fault != Fault::None);
    // faults before the transaction is sent: nothing may be sent
    let lookup_failed = r.node.calls.iter().any(|x| x.fault != Fault::None && matches!(x.method.as_str(), "getAccountInfo" | "getMultipleAccounts" | "getLatestBlockhash"));
    let signer = c.signer.map(|s| k(s));
    let mut distinct: Vec<&Vec<u8>> = vec![];
    for t in &r.node.txs {
        if !distinct.contains(&t) {
            distinct.push(t);
        }
    }
    if distinct.len() > 1 {
        bad("several-transactions", format!("{} different transactions were submitted", distinct.len()));
    }
    let none_wanted = matches!(c.want, Want::Refuse | Want::Show(..)) || lookup_failed;
    if none_wanted && !distinct.is_empty() {
        bad(
            "unrequested-transaction",
            format!("a transaction was submitted although {}", if lookup_failed { "a lookup it depends on failed" } else { "none was asked for" }),
        );
    }
    let mut executed = None;
    for raw in &distinct {
        let Ok(t) = bincode::deserialize::<VersionedTransaction>(raw) else {
            bad("malformed-transaction", "a malformed transaction was submitted".into());
            continue;
        };
        let (ixs, signers) = to_ixs(&t);
        if raw.len() <= 1232 && t.verify_with_results().iter().any(|x| !x) {
            bad("bad-signature", "a transaction with an invalid signature was submitted".into());
        }
        if Some(signers[0]) != signer || signers.len() != 1 {
            bad("wrong-signer", format!("the transaction is signed by {signers:?}, the configured key is {signer:?}"));
        }
        if t.message.recent_blockhash().to_string() != HASH {
            bad("wrong-blockhash", "the transaction does not use the node's blockhash".into());
        }
        if none_wanted {
            continue;
        }
        let enough = budget_ok(&ixs);
        let ixs: Vec<Instruction> = ixs.into_iter().filter(|i| !is_budget(&i.program_id)).collect();
        let s = signer.unwrap();
        let mut got = (*c.world).clone();
        let too_large = raw.len() > 1232;
        let got_log = if too_large || !enough { None } else { got.exec(&ixs, &signers).ok() };
        let got_ok = got_log.is_some();
        let mut want_log = None;
        executed = Some(got_ok);
        let mut want = (*c.world).clone();
        let want_ok = match &c.want {
            Want::Op(w) => {
                want_log = want.exec(w, &[s]).ok();
                want_log.is_some()
            }
            Want::DefaultQueue(o, idx) => {
                let n = got.data(&queue(o, *idx)).len() as u32;
                let fits = 16 + 96 + 20 * 33 + 512 + 8;
                if got_ok && n < fits {
                    bad("small-default", format!("the default queue has {n} bytes and cannot hold one request of the largest kind ({fits})"));
                }
                let n = if n == 0 { 9_500 } else { n };
                want.exec(&vec![ix_init_queue(&s, o, *idx, n); n.div_ceil(10_240) as usize], &[s]).is_ok()
            }
            _ => false,
        };
        // what is asked of the ephemeral validator is no change of an account
        let magic = |l: &Option<Log>| -> Vec<String> { l.iter().flat_map(|l| l.magic.iter().map(|m| format!("{m:?}"))).collect() };
        if got.accts != want.accts || magic(&got_log) != magic(&want_log) {
            let diff: Vec<String> = got
                .accts
                .keys()
                .chain(want.accts.keys())
                .filter(|k| got.accts.get(*k) != want.accts.get(*k))
                .map(|k| k.to_string())
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .take(4)
                .collect();
            if too_large && want_ok {
                // more than fits one transaction: nothing happens and it is reported
            } else {
                bad(
                    if got_ok { "wrong-effect" } else { "no-effect" },
                    format!(
                        "the submitted transaction ({}) does not do what was asked ({}): accounts {diff:?} differ",
                        if got_ok { "accepted" } else { "rejected" },
                        if want_ok { "the operation is valid" } else { "the operation is not possible" }
                    ),
                );
            }
        }
    }
    // what is reported
    if c.args.first().map(|x| x.as_str()) == Some("--help") {
        return;
    }
    match &c.want {
        Want::Show(lines, not) => {
            if !faulty && !r.ok {
                bad("read-fails", "the command fails although the node answered everything".into());
            }
            if lookup_failed && r.ok {
                bad("failure-not-reported", "a lookup failed and the command reports success".into());
            }
            if r.ok && !faulty {
                for words in lines {
                    let split = |l: &str| -> Vec<String> {
                        l.split(|c: char| !(c.is_alphanumeric())).map(|x| x.to_string()).filter(|x| !x.is_empty()).collect()
                    };
                    let hit = r.out.lines().any(|l| {
                        let w = split(l);
                        words.iter().all(|x| w.contains(x))
                    });
                    if !hit {
                        bad("wrong-output", format!("no line of the output has {words:?}; output: {}", r.out.replace('\n', " | ")));
                    }
                }
                for n in not {
                    if r.out.contains(n.as_str()) {
                        bad("wrong-output", format!("the output names {n}, which does not exist"));
                    }
                }
            }
        }
        Want::Refuse | Want::NoEffect => {
            if r.ok {
                bad("failure-not-reported", "the operation was not possible and the command reports success".into());
            }
        }
        Want::Op(_) | Want::DefaultQueue(..) => {
            let confirmed = !r.node.confirmed.is_empty();
            if r.ok && (!confirmed || executed != Some(true)) {
                bad("failure-not-reported", format!("the command reports success (transaction confirmed: {confirmed}, has an effect: {executed:?})"));
            }
            if !faulty && executed == Some(true) && !r.ok {
                bad("success-not-reported", "the operation took effect and the command fails".into());
            }
            if !faulty && distinct.is_empty() {
                // an operation that would have been accepted must be submitted
                let mut want = (*c.world).clone();
                let possible = match &c.want {
                    Want::Op(w) => w.iter().all(|i| i.accounts.iter().all(|a| !a.is_signer || Some(a.pubkey) == signer)) && want.exec(w, &[signer.unwrap()]).is_ok(),
                    _ => false,
                };
                if possible {
                    bad("nothing-submitted", "the operation is valid and nothing was submitted".into());
                }
            }
        }
    }
    for p in &r.node.problems {
        eprintln!("note: {p}");
    }
}

/// Every fault sequence with at most `d` faults for each case: a run learns which calls are made, each of them is then
/// answered with each fault.  Mostly waiting for the client's polls, so many runs go on at once.
fn explore(name: &str, cs: &[(&Case, usize)], threads: usize, dl: Instant) -> (Stats, Vec<Found>) {
    struct Job(usize, Vec<Fault>, usize);
    let work: Mutex<(Vec<Job>, usize)> = Mutex::new((cs.iter().enumerate().rev().map(|(i, c)| Job(i, vec![], c.1)).collect(), 0));
    let out: Mutex<(Stats, Vec<Found>)> = Default::default();
    std::thread::scope(|t| {
        for _ in 0..threads {
            t.spawn(|| loop {
                let job = {
                    let mut w = work.lock().unwrap();
                    match w.0.pop() {
                        Some(j) => {
                            w.1 += 1;
                            Some(j)
                        }
                        None if w.1 == 0 => break,
                        None => None,
                    }
                };
                let Some(Job(i, script, left)) = job else {
                    std::thread::sleep(Duration::from_millis(3));
                    continue;
                };
                if Instant::now() > dl {
                    out.lock().unwrap().0.truncated = true;
                    work.lock().unwrap().1 -= 1;
                    continue;
                }
                let c = cs[i].0;
                let r = run(c, &script);
                let mut v = vec![];
                judge(c, &r, &mut v);
                {
                    let mut o = out.lock().unwrap();
                    o.0.op(&c.args.first().cloned().unwrap_or_default(), r.ok);
                    o.0.transitions += r.node.calls.len() as u64;
                    o.0.states += 1;
                    o.0.traces += 1;
                    o.0.depth = o.0.depth.max(r.node.calls.len() as u64);
                    for x in v {
                        let path = vec![c.label.clone(), format!("faults {script:?}")];
                        o.1.push(Found { viol: x, scenario: name.into(), path });
                    }
                }
                let mut more = vec![];
                if left > 0 {
                    for n in script.len()..r.node.calls.len() {
                        for f in faults(&r.node.calls[n].method) {
                            if f != Fault::None {
                                let mut s = script.clone();
                                s.resize(n, Fault::None);
                                s.push(f);
                                more.push(Job(i, s, left - 1));
                            }
                        }
                    }
                }
                let mut w = work.lock().unwrap();
                w.0.extend(more);
                w.1 -= 1;
            });
        }
    });
    let (mut st, mut fs) = out.into_inner().unwrap();
    // the calls of a run are the transitions; a state is a finished run
    st.samples.push(format!("{name}: {}", cs.last().unwrap().0.label));
    fs.sort_by(|a, b| a.path.cmp(&b.path));
    (st, fs)
}

// ------------------------------------------------------------------ the space
pub fn cases() -> Vec<Case> {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let c_ = oracle("oracle-c");
    let virgin = base();
    let mut init = base();
    must(&mut init, &[ix_initialize(&admin())], &[admin()]);
    let mut full = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut full, "oracle-a", 0, 500);
    add_queue(&mut full, "oracle-a", 9, 2000);
    add_queue(&mut full, "oracle-a", 19, 11_000);
    must(&mut full, &[ix_add(&admin(), &oracle("oracle-d").id, &oracle("oracle-d").pk)], &[admin()]);
    add_queue(&mut full, "oracle-b", 0, 500);
    add_queue(&mut full, "oracle-b", 7, 300);
    let q9 = queue(&a.id, 9);
    must(&mut full, &[forward(prog_x(), &ix_request(&payer(), &q9, &Req::simple(prog_x(), 1)))], &[payer()]);
    must(&mut full, &[forward(prog_y(), &ix_request(&payer(), &q9, &Req::simple(prog_y(), 2).high()))], &[payer()]);
    // things that are not queues of the program
    let look_alike = full.data(&queue(&a.id, 0)).to_vec();
    full.put(k("look-alike"), Acct { lamports: RICH, owner: prog_x(), executable: false, data: look_alike.clone() });
    full.put(k("short"), Acct { lamports: RICH, owner: VRF, executable: false, data: look_alike[..19].to_vec() });
    full.put(k("header-only"), Acct { lamports: RICH, owner: prog_x(), executable: false, data: look_alike[..20].to_vec() });
    let mut odd = look_alike.clone();
    odd[0] = 4;
    full.put(k("other-kind"), Acct { lamports: RICH, owner: VRF, executable: false, data: odd });
    full.put(k("empty"), Acct { lamports: RICH, owner: VRF, executable: false, data: vec![] });
    let mut fresh = init.clone();
    must(&mut fresh, &[ix_add(&admin(), &a.id, &a.pk)], &[admin()]);
    let mut deleg = full.clone();
    must(&mut deleg, &[ix_delegate(&a.id, &queue(&a.id, 0), 0)], &[a.id]);
    // the first step of a large queue, and a queue on either side of it
    let mut half = full.clone();
    must(&mut half, &[ix_init_queue(&a.id, &a.id, 12, 15_000)], &[a.id]);
    let mut er = full.clone();
    er.set_prog(MAGIC, Prog::Magic);
    er.put(MAGIC_CTX, Acct { lamports: RICH, owner: MAGIC, executable: false, data: vec![] });
    let worlds: Vec<(&str, Arc<World>)> = vec![
        ("virgin", Arc::new(virgin)),
        ("initialised", Arc::new(init)),
        ("just registered", Arc::new(fresh)),
        ("full", Arc::new(full)),
        ("delegated", Arc::new(deleg)),
        ("ephemeral", Arc::new(er)),
        ("half made", Arc::new(half)),
    ];
    let w = |n: &str| worlds.iter().find(|x| x.0 == n).unwrap().1.clone();
    let signers = ["admin", "oracle-a", "oracle-b", "mallory"];
    let key = |s: &str| k(s);
    let mut out: Vec<Case> = vec![];
    let mut add = |world: &str, signer: &'static str, args: Vec<String>, want: Want| {
        out.push(Case {
            label: format!("{world} / {signer}: {}", args.join(" ")),
            world: w(world),
            signer: Some(signer),
            raw_key: None,
            args,
            want,
            env: false,
        })
    };
    let s = |x: &str| x.to_string();
    for world in ["virgin", "initialised", "full"] {
        for sg in signers {
            add(world, sg, vec![s("initialize")], Want::Op(vec![ix_initialize(&key(sg))]));
        }
    }
    // oracles
    let ids: Vec<Pubkey> = vec![a.id, b.id, c_.id, oracle("oracle-d").id, Pubkey::default(), vrf_identity(), admin()];
    for world in ["virgin", "initialised", "full"] {
        for sg in ["admin", "mallory"] {
            for id in &ids {
                for pk in [a.pk, c_.pk, [0u8; 32], [0xff; 32]] {
                    if world != "full" && pk != c_.pk {
                        continue;
                    }
                    let args = vec![s("add-oracle"), s("--identity"), id.to_string(), s("--oracle-pubkey"), Pubkey::from(pk).to_string()];
                    add(world, sg, args, Want::Op(vec![ix_add(&key(sg), id, &pk)]));
                }
                add(world, sg, vec![s("remove-oracle"), s("--identity"), id.to_string()], Want::Op(vec![ix_remove(&key(sg), id)]));
            }
        }
    }
    for bad in ["", "x", "0OIl", "1111111111111111111111111111111", "111111111111111111111111111111111", &"z".repeat(44)] {
        add("full", "admin", vec![s("add-oracle"), s("--identity"), s(bad), s("--oracle-pubkey"), Pubkey::from(c_.pk).to_string()], Want::Refuse);
        add("full", "admin", vec![s("add-oracle"), s("--identity"), c_.id.to_string(), s("--oracle-pubkey"), s(bad)], Want::Refuse);
        add("full", "admin", vec![s("remove-oracle"), s("--identity"), s(bad)], Want::Refuse);
        add("full", "oracle-a", vec![s("initialize-oracle-queue"), s("--identity"), s(bad), s("--index"), s("1")], Want::Refuse);
        for c in ["delegate-oracle-queue", "undelegate-oracle-queue", "close-oracle-queue"] {
            add("full", "oracle-a", vec![s(c), s("--queue"), s(bad)], Want::Refuse);
        }
    }
    // queues
    for world in ["just registered", "full", "initialised"] {
        for (sg, id) in [("oracle-a", a.id), ("oracle-a", b.id), ("mallory", a.id), ("mallory", mallory()), ("oracle-b", b.id)] {
            for idx in [0u8, 1, 2, 9, 128, 255] {
                for bytes in [None, Some(0u32), Some(7), Some(8), Some(19), Some(20), Some(21), Some(300), Some(9_999), Some(10_240), Some(10_241), Some(20_480), Some(100_000), Some(1_000_000)] {
                    let small = matches!(idx, 1 | 9) || matches!(bytes, None | Some(300));
                    if (world != "full" || sg != "oracle-a" || id != a.id) && !small {
                        continue;
                    }
                    if !matches!(idx, 1) && !matches!(bytes, None | Some(300) | Some(10_241)) {
                        continue;
                    }
                    let mut args = vec![s("initialize-oracle-queue"), s("--identity"), id.to_string(), s("--index"), idx.to_string()];
                    if let Some(n) = bytes {
                        args.extend([s("--bytes-to-allocate"), n.to_string()]);
                    }
                    let me = key(sg);
                    let want = if me != id {
                        // the oracle itself has to sign
                        Want::NoEffect
                    } else {
                        match bytes {
                            None => Want::DefaultQueue(id, idx),
                            Some(n) => Want::Op(vec![ix_init_queue(&me, &id, idx, n); (n.div_ceil(10_240) as usize).max(1)]),
                        }
                    };
                    add(world, sg, args, want);
                }
            }
        }
    }
    for i in ["256", "-1", "x", "1.0", ""] {
        add("full", "oracle-a", vec![s("initialize-oracle-queue"), s("--identity"), a.id.to_string(), s("--index"), s(i)], Want::Refuse);
        let args = vec![s("initialize-oracle-queue"), s("--identity"), a.id.to_string(), s("--index"), s("1"), s("--bytes-to-allocate"), if i == "256" { s("4294967296") } else { s(i) }];
        add("full", "oracle-a", args, Want::Refuse);
    }
    let targets: Vec<(Pubkey, Option<(Pubkey, u8)>)> = vec![
        (queue(&a.id, 0), Some((a.id, 0))),
        (queue(&a.id, 9), Some((a.id, 9))),
        (queue(&a.id, 19), Some((a.id, 19))),
        (queue(&b.id, 0), Some((b.id, 0))),
        (queue(&b.id, 7), Some((b.id, 7))),
        (queue(&a.id, 1), None),
        (k("look-alike"), None),
        (k("header-only"), None),
        (k("short"), None),
        (k("other-kind"), None),
        (k("empty"), None),
        (registry(), None),
        (record(&a.id), None),
        (a.id, None),
        (k("absent"), None),
    ];
    for world in ["full", "delegated", "ephemeral"] {
        for sg in signers {
            for (q, of) in &targets {
                let parses = |w: &World| {
                    let d = w.data(q);
                    d.len() >= 20 && d[0] == 3 && d[1..8] == [0; 7]
                };
                let exists = parses(&w(world));
                let me = key(sg);
                let want = |ix: Instruction| if exists { Want::Op(vec![ix]) } else { Want::Refuse };
                let idx = of.map(|x| x.1).unwrap_or(0);
                add(world, sg, vec![s("delegate-oracle-queue"), s("--queue"), q.to_string()], want(ix_delegate(&me, q, idx)));
                add(world, sg, vec![s("undelegate-oracle-queue"), s("--queue"), q.to_string()], want(ix_undelegate(&me, q, idx)));
                let close = match of {
                    Some((o, i)) if *o == me => Want::Op(vec![ix_close(&me, *i)]),
                    // somebody else's queue, or no queue at all: only its oracle can close it
                    _ if exists => Want::NoEffect,
                    _ => Want::Refuse,
                };
                add(world, sg, vec![s("close-oracle-queue"), s("--queue"), q.to_string()], close);
            }
        }
    }
    // reading
    for (world, wd) in &worlds {
        for sg in signers {
            let me = key(sg);
            let (mut show, mut not) = (vec![], vec![]);
            for i in 0..20u8 {
                let q = queue(&me, i);
                let mut e = vec![];
                match wd.get(&q) {
                    // not a queue yet
                    Some(acc) if acc.data.iter().all(|b| *b == 0) => {}
                    Some(acc) => {
                        let n = crate::spec::decode_queue(&acc.data, &mut e).map(|x| x.items.len()).unwrap_or(0);
                        show.push(vec![q.to_string(), n.to_string(), i.to_string(), (acc.owner != VRF).to_string()]);
                    }
                    None => not.push(q.to_string()),
                }
            }
            for o in [a.id, b.id] {
                if o != me {
                    not.push(queue(&o, 0).to_string());
                }
            }
            add(world, sg, vec![s("list-queue")], Want::Show(show, not));
            add(world, sg, vec![s("derive-pubkey")], Want::Show(vec![vec![me.to_string(), Pubkey::from(derived(&keypair(sg))).to_string()]], vec![]));
        }
    }
    let _ = dlp::ID;
    // the key: from the environment, malformed
    let ok = out.iter().find(|c| c.label.starts_with("full / oracle-a: initialize-oracle-queue")).unwrap().clone();
    let rd = out.iter().find(|c| c.label.starts_with("full / oracle-a: list-queue")).unwrap().clone();
    for c in [ok, rd] {
        let mut e = c.clone();
        e.env = true;
        e.label += " (key and node by environment)";
        out.push(e);
        for (l, raw) in [("empty", s("")), ("not base58", s("0OIl")), ("32 bytes", k("oracle-a").to_string()), ("short", s("abc"))] {
            let mut e = c.clone();
            e.raw_key = Some(raw);
            e.signer = None;
            e.want = Want::Refuse;
            e.label += &format!(" (key: {l})");
            out.push(e);
        }
        let mut kp = keypair("oracle-a").to_bytes();
        kp[40] ^= 1;
        let mut e = c.clone();
        e.raw_key = Some(b58(&kp));
        e.signer = None;
        e.want = Want::Refuse;
        e.label += " (key: halves do not match)";
        out.push(e);
    }
    out
}
fn b58(d: &[u8]) -> String {
    let abc = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n: Vec<u8> = vec![];
    for &b in d {
        let mut c = b as u32;
        for x in n.iter_mut() {
            c += (*x as u32) << 8;
            *x = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            n.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s: String = d.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    s.extend(n.iter().rev().map(|x| abc[*x as usize] as char));
    s
}
fn derived(kp: &Keypair) -> [u8; 32] {
    ephemeral_vrf::vrf::generate_vrf_keypair(kp).1.compress().to_bytes()
}

/// every command and argument, the node answering everything
pub fn commands(dl: Instant) -> (Stats, Vec<Found>) {
    let cs = cases();
    explore("cli/commands", &cs.iter().map(|c| (c, 0)).collect::<Vec<_>>(), 2 * threads(), dl)
}
/// every sequence of node faults, for representative commands
pub fn failures(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let all = cases();
    let (a, c) = (oracle("oracle-a"), oracle("oracle-c"));
    let q = queue(&a.id, 9);
    let pick = [
        "virgin / admin: initialize".to_string(),
        format!("full / admin: add-oracle --identity {} --oracle-pubkey {}", c.id, Pubkey::from(c.pk)),
        format!("full / admin: remove-oracle --identity {}", a.id),
        format!("full / mallory: remove-oracle --identity {}", a.id),
        format!("full / oracle-a: initialize-oracle-queue --identity {} --index 1", a.id),
        format!("full / oracle-a: initialize-oracle-queue --identity {} --index 1 --bytes-to-allocate 20480", a.id),
        format!("full / oracle-a: delegate-oracle-queue --queue {q}"),
        format!("ephemeral / oracle-a: undelegate-oracle-queue --queue {q}"),
        format!("full / oracle-a: close-oracle-queue --queue {}", queue(&a.id, 0)),
        format!("full / oracle-b: close-oracle-queue --queue {}", queue(&a.id, 0)),
        "full / oracle-a: derive-pubkey".to_string(),
        "delegated / oracle-a: list-queue".to_string(),
    ];
    let cs: Vec<(&Case, usize)> = pick
        .iter()
        .map(|p| all.iter().find(|c| c.label == *p).unwrap_or_else(|| panic!("no case {p}")))
        .map(|c| (c, if c.args[0] == "list-queue" { 1 + thorough as usize } else { 2 + thorough as usize }))
        .collect();
    explore("cli/node failures", &cs, 6 * threads(), dl)
}
