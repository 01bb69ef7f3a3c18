//! Explores the oracle service under every schedule, fault and order of events within a bound on deviations from the
//! nominal behaviour, and judges what it does.
mod scen;
mod sim;

use serde_json::{json, Value};
use sim::{Setup, Sim};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use svm::engine::{Found, Stats, Viol};
use svm::report::Report;

// the service reads the clock through the C library: give it the explorer's clock
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if mcrt::IN_APP.with(|f| f.get()) {
        let n = mcrt::CLOCK.load(std::sync::atomic::Ordering::Relaxed);
        let off = if clk == libc::CLOCK_REALTIME { 1_700_000_000 } else { 10_000 };
        (*ts).tv_sec = (n / 1_000_000_000) as i64 + off;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
/// a thread that sleeps blocks the task it runs
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if mcrt::IN_APP.with(|f| f.get()) && clk != libc::CLOCK_REALTIME {
        let mut ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(mcrt::now_ns() + 10_000_000_000_000);
        }
        mcrt::block_ns(ns);
        return 0;
    }
    match libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}
// and hash tables get the same seeds in every execution
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    std::ptr::write_bytes(buf as *mut u8, 0x5a, n);
    n as libc::ssize_t
}

type Devs = BTreeMap<usize, usize>;

fn prepare(s: &Setup) {
    let set = |k: &str, v: Option<&str>| match v {
        Some(v) => std::env::set_var(k, v),
        None => std::env::remove_var(k),
    };
    let id = keypair58();
    set("VRF_ORACLE_IDENTITY", Some(&id));
    set("RPC_URL", Some("http://node:8899"));
    set("WEBSOCKET_URL", Some("ws://node:8900"));
    set("LASERSTREAM_API_KEY", s.laser.then_some("key"));
    set("LASERSTREAM_ENDPOINT", s.laser.then_some("http://laser:1"));
    set("VRF_ORACLE_HTTP_PORT", s.stats.then_some("8080"));
    set("VRF_ORACLE_SKIP_PREFLIGHT", Some(if s.skip_preflight { "true" } else { "false" }));
}
fn keypair58() -> String {
    svm::world::keypair("oracle-a").to_base58_string()
}

#[derive(Default)]
struct Acc {
    execs: u64,
    points: u64,
    steps: u64,
    polls: u64,
    sends: u64,
    landed: u64,
    answered: u64,
    stats_seen: u64,
    crashes: u64,
    faults: u64,
    diverged: u64,
    found: BTreeMap<String, (Viol, Devs)>,
}

fn exec(s: &Arc<Setup>, devs: &Devs, acc: &mut Acc, trace: bool) -> (Vec<u16>, Option<Vec<String>>) {
    prepare(s);
    let (mut sim, info) = Sim::new(Arc::clone(s), devs.clone(), trace).run();
    acc.execs += 1;
    acc.points += (sim.points.len() - devs.keys().next_back().map(|k| k + 1).unwrap_or(0).min(sim.points.len())) as u64;
    acc.steps += info.steps;
    acc.polls += info.polls;
    acc.sends += sim.sends;
    acc.landed += sim.landed;
    acc.answered += sim.answered;
    acc.stats_seen += sim.stats_seen;
    acc.crashes += sim.crashes as u64;
    acc.faults += sim.faults;
    for v in std::mem::take(&mut sim.found) {
        acc.found.entry(v.kind.clone()).or_insert((v, devs.clone()));
    }
    (std::mem::take(&mut sim.points), sim.trace.take())
}

/// one part of the work: all executions of the scenarios with exactly `depth` deviations, each at most `window`
/// decisions after the one before
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Stage {
    scenarios: Vec<String>,
    depth: usize,
    window: usize,
}
impl Stage {
    fn name(&self) -> String {
        match (self.depth, self.window) {
            (0, _) => "nominal".into(),
            (1, _) => "1 deviation".into(),
            (d, usize::MAX) => format!("{d} deviations"),
            (d, w) => format!("{d} deviations at most {w} decisions apart"),
        }
    }
}
struct Search<'a> {
    s: &'a Arc<Setup>,
    window: usize,
    deadline: Instant,
    acc: Acc,
    /// the property judged and the kinds recorded as known findings
    judged: &'a (String, Vec<String>),
}
impl Search<'_> {
    /// all executions with exactly `more` further deviations after those in `devs`; false: out of time
    fn explore(&mut self, devs: &Devs, points: &[u16], more: usize, part: Option<(usize, usize)>) -> bool {
        let from = devs.keys().next_back().map(|k| k + 1).unwrap_or(0);
        let to = if devs.is_empty() { points.len() } else { points.len().min(from.saturating_add(self.window)) };
        let mut n = 0;
        for i in from..to {
            for a in 1..points[i] as usize {
                n += 1;
                if let Some((k, m)) = part {
                    if n % m != k {
                        continue;
                    }
                }
                if Instant::now() > self.deadline {
                    return false;
                }
                let mut d = devs.clone();
                d.insert(i, a);
                // executions that only lead on to others are judged where they are counted
                let mut t = Acc::default();
                let acc = if more == 1 { &mut self.acc } else { &mut t };
                let before = acc.found.len();
                let (p, _) = exec(self.s, &d, acc, false);
                if acc.found.len() > before && violated(acc, self.judged) {
                    // the verdict is settled: go on for a little to see what else there is
                    self.deadline = self.deadline.min(Instant::now() + Duration::from_secs(30));
                }
                if p.len() <= i || p[..=i] != points[..=i] {
                    self.acc.diverged += 1;
                    continue;
                }
                if more > 1 && !self.explore(&d, &p, more - 1, None) {
                    return false;
                }
            }
        }
        true
    }
}

fn violated(a: &Acc, (prop, known): &(String, Vec<String>)) -> bool {
    a.found.values().any(|(v, _)| v.props.iter().any(|p| p == prop) && !known.contains(&v.kind))
}

fn child(job: &Value) {
    let (k, m) = (job["part"].as_u64().unwrap() as usize, job["parts"].as_u64().unwrap() as usize);
    let stages: Vec<Stage> = serde_json::from_value(job["stages"].clone()).unwrap();
    let deadline = Instant::now() + Duration::from_millis(job["budget"].as_u64().unwrap());
    let judged: (String, Vec<String>) = serde_json::from_value(job["judged"].clone()).unwrap();
    let mut over = false;
    let all: BTreeMap<&str, Arc<Setup>> = scen::all().into_iter().map(|s| (s.name, Arc::new(s))).collect();
    let mut out = vec![];
    let mut roots: BTreeMap<String, Vec<u16>> = BTreeMap::new();
    let mut kinds: std::collections::BTreeSet<(String, String)> = Default::default();
    for st in &stages {
        if over {
            break;
        }
        for name in &st.scenarios {
            let s = &all[name.as_str()];
            let mut se = Search { s, window: st.window, deadline, acc: Acc::default(), judged: &judged };
            let mut done = true;
            if st.depth == 0 {
                let mut t = Acc::default();
                let (p, _) = exec(s, &Devs::new(), &mut t, false);
                over |= violated(&t, &judged);
                if k == 0 {
                    se.acc = t;
                }
                let (p2, _) = exec(s, &Devs::new(), &mut Acc::default(), false);
                if p != p2 {
                    se.acc.diverged += 1;
                }
                roots.insert(name.clone(), p);
            } else {
                let p = roots[name].clone();
                done = se.explore(&Devs::new(), &p, st.depth, Some((k, m)));
            }
            let a = se.acc;
            over |= violated(&a, &judged);
            let found: Vec<Value> = a
                .found
                .values()
                .filter(|(v, _)| kinds.insert((name.clone(), v.kind.clone())))
                .map(|(v, d)| {
                    let mut t = Acc::default();
                    let (_, tr) = exec(s, d, &mut t, true);
                    let again = t.found.contains_key(&v.kind);
                    json!({"kind": v.kind, "msg": v.msg, "props": v.props, "devs": d.iter().map(|(a,b)| json!([a,b])).collect::<Vec<_>>(), "again": again,
                        "trace": tr.unwrap_or_default().into_iter().filter(|l| !l.contains("|   [")).collect::<Vec<_>>()})
                })
                .collect();
            let p = &roots[name];
            out.push(json!({"scenario": name, "stage": st.name(), "depth": st.depth, "execs": a.execs, "points": a.points, "steps": a.steps, "polls": a.polls, "sends": a.sends,
                "landed": a.landed, "answered": a.answered, "stats": a.stats_seen, "crashes": a.crashes, "faults": a.faults, "diverged": a.diverged,
                "done": done, "choices": p.len(), "alternatives": p.iter().map(|n| *n as u64 - 1).sum::<u64>(), "found": found}));
        }
    }
    std::fs::write(job["out"].as_str().unwrap(), serde_json::to_vec(&out).unwrap()).expect("result");
}

fn quiet_panics() {
    svm::rt::install();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        // panics of the service are outcomes, not errors of the explorer
        if std::env::var("MC_TRACE").is_ok() || !mcrt::IN_APP.with(|f| f.get()) {
            old(i)
        } else {
            svm::rt::note_panic(i);
        }
    }));
}

fn main() {
    quiet_panics();
    if let Ok(j) = std::env::var("MC_JOB") {
        child(&serde_json::from_str(&j).expect("job"));
        std::process::exit(0);
    }
    // MC_TRACE=scenario[:i=a,i=a...]: print one execution
    if let Ok(t) = std::env::var("MC_TRACE") {
        let (n, d) = t.split_once(':').unwrap_or((&t, ""));
        let s = Arc::new(scen::all().into_iter().find(|s| s.name == n).expect("scenario"));
        let devs: Devs = d
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.split_once('=').unwrap())
            .map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
            .collect();
        let t0 = Instant::now();
        let mut acc = Acc::default();
        let (_, tr) = exec(&s, &devs, &mut acc, true);
        for l in tr.unwrap() {
            println!("{l}");
        }
        println!("{:?} {} points {} steps {} polls", t0.elapsed(), acc.points, acc.steps, acc.polls);
        let t0 = Instant::now();
        for _ in 0..20 {
            exec(&s, &devs, &mut acc, false);
        }
        println!("{:?} per execution", t0.elapsed() / 20);
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier) = (a[1].clone(), a.get(2).cloned().unwrap_or("quick".into()));
    let mut r = Report::new(&prop, &tier);
    let names: Vec<&str> = scen::of(&prop).iter().map(|s| s.name).collect();
    if names.is_empty() {
        eprintln!("no scenario for {prop}");
        std::process::exit(3);
    }
    let all: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    let deep: Vec<String> = all.iter().filter(|n| scen::deep(&prop).contains(&n.as_str())).cloned().collect();
    let stage = |s: &Vec<String>, depth, window| Stage { scenarios: s.clone(), depth, window };
    // the long ones take a tenth of a second each
    let short: Vec<String> = all.iter().filter(|n| !n.starts_with("long")).cloned().collect();
    let mut stages = vec![stage(&all, 0, 0), stage(&short, 1, usize::MAX), stage(&deep, 2, 16), stage(&short, 2, 2)];

    let mut budget = 400_000;
    if r.thorough() {
        budget = 2_700_000;
        let long: Vec<String> = all.iter().filter(|n| !short.contains(n)).cloned().collect();
        if !long.is_empty() {
            stages.push(stage(&long, 1, usize::MAX));
        }
        stages.extend([stage(&deep, 2, usize::MAX), stage(&short, 2, 10), stage(&deep, 3, 3), stage(&short, 2, usize::MAX), stage(&deep, 3, 8)]);
    }
    if let Ok(b) = std::env::var("MC_BUDGET_MS") {
        budget = b.parse().expect("budget");
    }
    let parts = svm::engine::threads();
    let dir = std::env::temp_dir().join(format!("oraclemc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let kids: Vec<_> = (0..parts)
        .map(|k| {
            let out = dir.join(format!("{k}.json"));
            let job = json!({"stages": stages, "part": k, "parts": parts, "budget": budget, "out": out,
                "judged": (&prop, svm::report::load_known(&prop).iter().map(|k| k.kind.clone()).collect::<Vec<_>>())});
            let c = std::process::Command::new(&exe)
                .env("MC_JOB", job.to_string())
                .env("RUST_BACKTRACE", "0")
                .stdout(std::process::Stdio::null())
                .stderr(if std::env::var("VERIF_DEBUG").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
                .spawn()
                .expect("worker");
            (c, out)
        })
        .collect();
    let mut failed = false;
    let mut per: BTreeMap<(u64, String, String), (Stats, Vec<Found>, Value)> = BTreeMap::new();
    let mut tot: BTreeMap<&'static str, u64> = BTreeMap::new();
    for (mut c, out) in kids {
        let st = c.wait().expect("worker");
        let Ok(b) = std::fs::read(&out) else {
            eprintln!("a worker ended with {st:?} and no result");
            failed = true;
            continue;
        };
        for v in serde_json::from_slice::<Vec<Value>>(&b).expect("result") {
            let n = v["scenario"].as_str().unwrap().to_string();
            let u = |k: &str| v[k].as_u64().unwrap();
            let e = per
                .entry((u("depth"), n.clone(), v["stage"].as_str().unwrap().to_string()))
                .or_insert_with(|| (Stats { depth: u("depth"), ..Stats::default() }, vec![], v.clone()));
            e.0.states += u("points");
            e.0.transitions += u("steps");
            e.0.traces += u("execs");
            for k in ["sends", "landed", "answered", "stats", "crashes", "faults", "polls", "diverged"] {
                *tot.entry(k).or_default() += u(k);
            }
            if v["done"] == false {
                e.0.truncated = true;
            }
            for f in v["found"].as_array().unwrap() {
                let kind = f["kind"].as_str().unwrap().to_string();
                let devs = f["devs"].as_array().unwrap().iter().map(|x| format!("{}={}", x[0], x[1])).collect::<Vec<_>>().join(",");
                let props: Vec<&'static str> = f["props"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| &*Box::leak(p.as_str().unwrap().to_string().into_boxed_str()))
                    .collect();
                if e.1.iter().any(|x| x.viol.kind == kind) {
                    continue;
                }
                if f["again"] == false {
                    eprintln!("  a deviation did not show again when its execution was repeated: {kind} {n}:{devs}");
                    failed = true;
                    continue;
                }
                let mut path: Vec<String> = vec![format!("replay: MC_TRACE={n}:{devs} target/release/oraclemc")];
                path.extend(f["trace"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()));
                e.1.push(Found {
                    viol: Viol { props, kind, msg: f["msg"].as_str().unwrap().to_string() },
                    scenario: n.clone(),
                    path,
                });
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    for ((d, n, stage), (mut st, f, v)) in per {
        if d == 0 {
            st.samples.push(format!(
                "{n}: {} choice points with {} alternatives in the nominal execution",
                v["choices"], v["alternatives"]
            ));
        }
        r.add(&format!("{n}, {stage}"), (st, f));
    }
    // the blockhash cache on its own (C27)
    if let Some(b) = std::env::var("MC_CACHE").ok().filter(|_| prop == "C27").and_then(|p| std::fs::read(p).ok()) {
        for v in serde_json::from_slice::<Vec<Value>>(&b).expect("result") {
            let u = |k: &str| v[k].as_u64().unwrap();
            let n = v["scenario"].as_str().unwrap();
            let mut st = Stats { states: u("points"), transitions: u("steps"), traces: u("execs"), depth: u("depth"), ..Stats::default() };
            st.truncated = v["truncated"] == true;
            if v["exhausted"] == true {
                st.samples.push(format!("cache, {n}: every interleaving, {} reads judged", v["reads"]));
            }
            let mut f = vec![];
            for x in v["found"].as_array().unwrap() {
                if x["again"] == false {
                    eprintln!("  a deviation of the cache did not show again: {}", x["kind"]);
                    failed = true;
                    continue;
                }
                f.push(Found {
                    viol: Viol { props: vec!["C27"], kind: x["kind"].as_str().unwrap().into(), msg: x["msg"].as_str().unwrap().into() },
                    scenario: format!("cache: {n}"),
                    path: x["path"].as_array().unwrap().iter().map(|l| l.as_str().unwrap().to_string()).collect(),
                });
            }
            r.add(&format!("cache: {n}, up to {} deviations", u("depth")), (st, f));
        }
    }
    // the bound on deviations that was completed is in "spaces"; a cut thorough run is not a cut of the quick bound
    for (k, n) in &tot {
        r.extra.insert(
            match *k {
                "sends" => "transactions_submitted_by_the_oracle",
                "landed" => "transactions_landed",
                "answered" => "requests_resolved",
                "stats" => "statistics_queries",
                "crashes" => "service_restarts",
                "faults" => "faults_injected",
                "polls" => "task_polls",
                _ => "executions_not_reproducible",
            }
            .into(),
            json!(n),
        );
    }
    r.extra.insert("meaning".into(), json!("states: distinct decision points of the controlled scheduler; transitions: scheduler steps; traces: complete executions of the compiled service, each in closed loop with the real program in the mini-SVM"));
    r.assume("executions deviate from the nominal schedule and environment at no more points, and no further apart, than reported per space");
    r.assume("preemption happens at lock acquisitions and await points; between them a task runs without interference");
    r.assume("a supervisor restarts the service when its start-up fails on an RPC error");
    r.assume("requests are answered by the mini-SVM's chain model; compute limits are not metered");
    if tot["diverged"] > 0 {
        eprintln!("{} executions were not reproducible", tot["diverged"]);
        failed = true;
    }
    let code = r.finish();
    std::process::exit(if code == 0 && failed { 3 } else { code });
}
