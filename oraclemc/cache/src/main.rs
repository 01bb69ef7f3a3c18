//! Every interleaving, within a bound on deviations, of readers and refreshers of the oracle's blockhash cache, with
//! answers of the node in any order, late, failed or malformed.
use mcrt::{End, Env, Op, Point, Rt, TaskId, MS, SEC};
use serde_json::json;
use solana_client::{nonblocking::rpc_client::RpcClient, RpcAnswer, RpcCall};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[path = "/repo/vrf-oracle/src/blockhash_cache.rs"]
mod blockhash_cache;
use blockhash_cache::BlockhashCache;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if mcrt::IN_APP.with(|f| f.get()) {
        let n = mcrt::CLOCK.load(std::sync::atomic::Ordering::Relaxed);
        (*ts).tv_sec = (n / 1_000_000_000) as i64 + 10_000;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    std::ptr::write_bytes(buf as *mut u8, 0x5a, n);
    n as libc::ssize_t
}

type Pair = ([u8; 32], u64);
fn pair(n: u64) -> Pair {
    let mut h = [(n % 251) as u8 + 1; 32];
    h[..8].copy_from_slice(&(n * 0x9e37_79b9_7f4a_7c15).to_le_bytes());
    // slots in no particular order: a fork may bring lower ones
    (h, 1000 + (n * 37) % 101)
}

/// what happened, in order
#[derive(Clone, Debug)]
enum Ev {
    /// an answer with a usable pair reached a task
    Answer { task: TaskId, pair: Pair },
    RefreshStart(TaskId),
    RefreshEnd(TaskId),
    ReadStart(TaskId),
    ReadEnd(TaskId, Pair),
    Ready,
}
static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
fn note(e: Ev) {
    LOG.lock().unwrap_or_else(|p| p.into_inner()).push(e);
}

#[derive(Clone)]
struct Scen {
    name: &'static str,
    refreshers: &'static [usize],
    readers: &'static [usize],
    /// seconds of silence before they begin
    idle: u64,
    failures: bool,
    /// seconds of silence after they are done
    linger: u64,
}
fn scens() -> Vec<Scen> {
    let s = |name, refreshers, readers, idle, failures| Scen { name, refreshers, readers, idle, failures, linger: 0 };
    let l = |name, refreshers, readers, idle| Scen { name, refreshers, readers, idle, failures: true, linger: 190 };
    vec![
        s("one refresher, one reader", &[2], &[3], 0, true),
        s("two refreshers, one reader", &[1, 1], &[2], 0, true),
        s("two refreshers, two readers", &[2, 1], &[2, 1], 0, false),
        s("three refreshers, one reader", &[1, 1, 1], &[2], 0, false),
        s("periodic refresh, one reader", &[], &[3], 60, true),
        s("periodic refresh, one refresher, one reader", &[2], &[2], 60, false),
        s("periodic refresh, two refreshers, one reader", &[1, 1], &[2], 60, true),
        l("one refresher, then silence", &[2], &[1], 40),
        l("two refreshers around the periodic one, then silence", &[1, 1], &[], 60),
    ]
}

struct Tick;
struct E {
    s: Scen,
    prefix: Vec<u16>,
    points: Vec<(u16, u16)>,
    trace: Option<Vec<String>>,
    pend: Vec<(u64, TaskId, Option<u64>)>,
    asked: u64,
    now: u64,
    live: bool,
    left: usize,
    started: u64,
    tasks: Vec<TaskId>,
    stuck: bool,
    done_at: Option<u64>,
    last_ok: u64,
    last_try: u64,
    old: Option<u64>,
    main: TaskId,
    panicked: Option<TaskId>,
    over: bool,
    steps: u64,
}
impl E {
    /// alternatives of a pending event
    fn kinds(&self, e: &(u64, TaskId, Option<u64>)) -> usize {
        match e.2 {
            None => 1,
            Some(_) if !self.live => 1,
            Some(_) if self.s.failures => 3,
            Some(_) => 1,
        }
    }
}
impl Env for E {
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn choose(&mut self, _p: Point, n: usize, what: &str) -> usize {
        self.steps += 1;
        if !self.live {
            return 0;
        }
        let i = self.points.len();
        let c = self.prefix.get(i).copied().unwrap_or(0).min(n as u16 - 1);
        self.points.push((n as u16, c));
        if let Some(t) = &mut self.trace {
            if c != 0 {
                t.push(format!("choice {i}: {c} of {n}, {what}"));
            }
        }
        c as usize
    }
    fn next_due(&self) -> Option<u64> {
        (!self.pend.is_empty()).then_some(self.now)
    }
    fn alts(&mut self) -> usize {
        self.pend.iter().map(|e| self.kinds(e)).sum()
    }
    fn fire(&mut self, rt: &mut Rt, mut alt: usize) {
        self.now = rt.now;
        let mut i = 0;
        while alt >= self.kinds(&self.pend[i]) {
            alt -= self.kinds(&self.pend[i]);
            i += 1;
        }
        let (op, task, n) = self.pend.remove(i);
        let Some(n) = n else {
            rt.complete(op, Box::new(()));
            return;
        };
        let p = pair(n);
        let hash = bs58::encode(p.0).into_string();
        let a = match alt {
            0 => {
                if rt.op_wanted(op) {
                    self.last_ok = rt.now;
                    note(Ev::Answer { task, pair: p });
                }
                RpcAnswer::Ok(json!({"context": {"slot": p.1}, "value": {"blockhash": hash, "lastValidBlockHeight": 5000}}))
            }
            1 => RpcAnswer::Io("connection reset".into()),
            _ => RpcAnswer::Ok(json!({"context": {"slot": p.1}, "value": {"blockhash": format!("{}O0", &hash[..30]), "lastValidBlockHeight": 5000}})),
        };
        if let Some(t) = &mut self.trace {
            t.push(format!("answer {n} to task {task}: {}", ["its pair", "connection reset", "malformed"][alt]));
        }
        rt.complete(op, Box::new(a));
    }
    fn issue(&mut self, rt: &mut Rt, op: Op) {
        self.now = rt.now;
        if let Ok(c) = op.what.downcast::<RpcCall>() {
            if c.method != "getLatestBlockhash" {
                // asked for something else: an answer which is not a blockhash
                rt.complete(op.id, Box::new(RpcAnswer::Rpc(-32601, "method not found".into(), None)));
                return;
            }
            self.asked += 1;
            self.last_try = rt.now;
            self.pend.push((op.id, op.task, Some(self.asked)));
        } else {
            self.pend.push((op.id, op.task, None));
        }
    }
    fn consumed(&mut self, _rt: &mut Rt, _task: TaskId, _chan: u64, _msg: &mcrt::Msg) {}
    fn chan_dropped(&mut self, _rt: &mut Rt, _chan: u64) {}
    fn ended(&mut self, rt: &mut Rt, t: TaskId, how: End) {
        if how == End::Panicked {
            self.panicked = Some(t);
        }
        if t == self.main {
            // the cache is there: the others begin
            let ready = LOG.lock().unwrap_or_else(|p| p.into_inner()).iter().any(|e| matches!(e, Ev::Ready));
            if !ready {
                self.over = true;
                return;
            }
            let mut make = CACHE.lock().unwrap_or_else(|p| p.into_inner());
            let cache = make.take().expect("cache");
            let idle = self.s.idle;
            for n in self.s.refreshers {
                let (c, n) = (Arc::clone(&cache), *n);
                self.tasks.push(rt.spawn(
                    Box::pin(async move {
                        wait(idle).await;
                        for _ in 0..n {
                            mcrt::op(Box::new(Tick)).await;
                            note(Ev::RefreshStart(mcrt::current()));
                            let _ = c.refresh_blockhash().await;
                            note(Ev::RefreshEnd(mcrt::current()));
                        }
                    }),
                    false,
                ));
            }
            for n in self.s.readers {
                let (c, n) = (Arc::clone(&cache), *n);
                self.tasks.push(rt.spawn(
                    Box::pin(async move {
                        wait(idle).await;
                        for _ in 0..n {
                            mcrt::op(Box::new(Tick)).await;
                            note(Ev::ReadStart(mcrt::current()));
                            let (h, s) = c.get_blockhash_and_slot().await;
                            note(Ev::ReadEnd(mcrt::current(), (h.to_bytes(), s)));
                        }
                    }),
                    false,
                ));
            }
            self.left = self.tasks.len();
            self.started = rt.now + idle * SEC;
            return;
        }
        if self.tasks.contains(&t) {
            self.left -= 1;
            if self.left == 0 {
                self.done_at = Some(rt.now);
                self.live = false;
                self.over = self.s.linger == 0;
            }
        }
    }
    fn quiet(&mut self, rt: &mut Rt, _full: bool) {
        self.now = rt.now;
        let due = self.last_try.max(self.last_ok + 60 * SEC) + 1500 * MS;
        if self.last_ok > 0 && rt.now > due && self.pend.iter().all(|p| p.2.is_none()) {
            self.old = self.old.or(Some((rt.now - self.last_ok) / SEC));
            self.over = true;
        }
        if let Some(d) = self.done_at {
            if rt.now > d + self.s.linger * SEC {
                self.over = true;
            }
            return;
        }
        if self.left > 0 {
            // from the first moment at which anything can happen at once
            self.live = rt.now + 1 >= self.started;
            if rt.now > self.started + 20 * SEC {
                self.stuck = true;
                self.over = true;
            }
        } else if rt.now > 20 * SEC {
            self.stuck = true;
            self.over = true;
        }
    }
    fn over(&self) -> bool {
        self.over
    }
}
/// the periodic refresh is due first, then everybody is there while its request is under way
async fn wait(idle: u64) {
    if idle > 0 {
        mcrt::sleep_ns(idle * SEC + 101 * MS).await;
    }
}
static CACHE: Mutex<Option<Arc<BlockhashCache>>> = Mutex::new(None);

fn judge(e: &E, log: &[Ev]) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    if let Some(t) = e.panicked {
        v.push(("cache-panics", format!("task {t} panicked")));
    }
    if e.stuck {
        v.push(("cache-stuck", format!("{} of the tasks using the cache never came to an end", e.left)));
    }
    if let Some(a) = e.old {
        v.push(("not-refreshed", format!("the pair is {a} s old and no refresh is under way")));
    }
    // writes: pair, from, to
    let mut w: Vec<(Pair, usize, usize)> = vec![];
    let mut open: BTreeMap<TaskId, Vec<usize>> = BTreeMap::new();
    for (i, x) in log.iter().enumerate() {
        match x {
            Ev::Answer { task, pair } => {
                open.entry(*task).or_default().push(w.len());
                w.push((*pair, i, usize::MAX));
            }
            Ev::RefreshEnd(t) => {
                for j in open.remove(t).unwrap_or_default() {
                    w[j].2 = i;
                }
            }
            Ev::Ready => {
                for j in open.remove(&e.main).unwrap_or_default() {
                    w[j].2 = i;
                }
            }
            _ => {}
        }
    }
    for (i, x) in log.iter().enumerate() {
        let Ev::ReadEnd(t, p) = x else { continue };
        let begin = log[..i].iter().rposition(|y| matches!(y, Ev::ReadStart(u) if u == t)).unwrap();
        let cands: Vec<_> = w.iter().filter(|x| x.0 == *p && x.1 < i).collect();
        if cands.is_empty() {
            let h = w.iter().position(|x| x.0 .0 == p.0);
            let s = w.iter().position(|x| x.0 .1 == p.1);
            v.push(("torn-pair", format!("a reader got the blockhash of answer {h:?} with slot {} (answer {s:?})", p.1)));
            continue;
        }
        if cands.iter().all(|c| w.iter().any(|n| n.1 > c.2 && n.2 < begin)) {
            v.push(("stale-read", "a reader got a pair although the refresh to a newer one had completed before it began".into()));
        }
    }
    v
}

fn exec(s: &Scen, prefix: &[u16], trace: bool) -> (Box<E>, Vec<(&'static str, String)>, Vec<Ev>) {
    LOG.lock().unwrap_or_else(|p| p.into_inner()).clear();
    let env = E {
        s: s.clone(),
        prefix: prefix.to_vec(),
        points: vec![],
        trace: trace.then(Vec::new),
        pend: vec![],
        asked: 0,
        now: SEC,
        live: false,
        left: 0,
        started: 0,
        tasks: vec![],
        stuck: false,
        done_at: None,
        last_ok: 0,
        last_try: 0,
        old: None,
        main: 0,
        panicked: None,
        over: false,
        steps: 0,
    };
    let out = mcrt::run(Box::new(env), MS, true, |rt| {
        let m = rt.spawn(
            Box::pin(async {
                let c = BlockhashCache::new(Arc::new(RpcClient::new("http://node:8899".into()))).await;
                *CACHE.lock().unwrap_or_else(|p| p.into_inner()) = Some(Arc::new(c));
                note(Ev::Ready);
            }),
            false,
        );
        assert_eq!(m, 0);
    });
    *CACHE.lock().unwrap_or_else(|p| p.into_inner()) = None;
    let (env, _) = out.split();
    let e = env.into_any().downcast::<E>().expect("environment");
    let log = LOG.lock().unwrap_or_else(|p| p.into_inner()).clone();
    let v = judge(&e, &log);
    (e, v, log)
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !mcrt::IN_APP.with(|f| f.get()) {
            hook(i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let out = &a[1];
    let budget = Duration::from_millis(a[2].parse().expect("budget"));
    let max: usize = a[3].parse().expect("deviations");
    if a.len() < 5 {
        // one process per scenario: an execution owns its process
        let n = scens().len();
        let exe = std::env::current_exe().expect("exe");
        let mut kids: Vec<_> = (0..n)
            .map(|k| {
                let o = format!("{out}.{k}");
                let c = std::process::Command::new(&exe).args([&o, &a[2], &a[3], &k.to_string()]).spawn().expect("worker");
                (c, o)
            })
            .collect();
        let mut all = vec![];
        for (c, o) in kids.iter_mut() {
            assert!(c.wait().expect("worker").success(), "a worker failed");
            all.push(serde_json::from_slice::<serde_json::Value>(&std::fs::read(&o).expect("result")).expect("result"));
            let _ = std::fs::remove_file(&o);
        }
        std::fs::write(out, serde_json::to_vec(&all).unwrap()).expect("result");
        return;
    }
    let s = scens().swap_remove(a[4].parse::<usize>().expect("scenario"));
    let t0 = Instant::now();
    let (mut execs, mut points, mut steps, mut reads) = (0u64, 0u64, 0u64, 0u64);
    let mut found: BTreeMap<&'static str, (String, Vec<u16>)> = BTreeMap::new();
    let mut depth = 0;
    let mut truncated = false;
    // executions with exactly d deviations from the nominal one, for d = 0, 1, ...
    let mut front: Vec<Vec<u16>> = vec![vec![]];
    while !front.is_empty() && depth <= max && found.is_empty() {
        let mut next = vec![];
        for p in &front {
            if t0.elapsed() > budget {
                truncated = true;
                break;
            }
            let (e, v, log) = exec(&s, p, false);
            execs += 1;
            steps += e.steps;
            points += (e.points.len() - p.len().min(e.points.len())) as u64;
            reads += log.iter().filter(|x| matches!(x, Ev::ReadEnd(..))).count() as u64;
            for (k, m) in v {
                found.entry(k).or_insert((m, p.clone()));
            }
            for i in p.len()..e.points.len() {
                for c in 1..e.points[i].0 {
                    let mut q: Vec<u16> = e.points[..i].iter().map(|x| x.1).collect();
                    q.push(c);
                    next.push(q);
                }
            }
        }
        if truncated {
            break;
        }
        depth += 1;
        front = next;
    }
    let exhausted = front.is_empty();
    let f: Vec<_> = found
        .iter()
        .map(|(k, (m, p))| {
            let (e, v, log) = exec(&s, p, true);
            let mut path = e.trace.unwrap_or_default();
            path.extend(log.iter().map(|x| format!("{x:?}")));
            json!({"kind": k, "msg": m, "path": path, "again": v.iter().any(|x| x.0 == *k)})
        })
        .collect();
    std::fs::write(
        out,
        serde_json::to_vec(&json!({"scenario": s.name, "execs": execs, "points": points, "steps": steps, "reads": reads, "depth": depth.max(1) - 1,
            "exhausted": exhausted, "truncated": truncated, "found": f}))
        .unwrap(),
    )
    .expect("result");
}
