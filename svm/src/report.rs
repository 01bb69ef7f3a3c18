//! Verdicts, evidence files, known findings.
use crate::engine::{Found, Stats, Viol};
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::time::Instant;

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub parts: Vec<Value>,
    pub assumptions: Vec<String>,
    pub extra: serde_json::Map<String, Value>,
    out: std::fs::File,
}
pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

impl Report {
    /// Takes over stdout: the code under test prints to it, so fd 1 goes to /dev/null and verdicts to the original.
    pub fn new(prop: &str, tier: &str) -> Report {
        let out = unsafe {
            let fd = libc::dup(1);
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 1);
            std::fs::File::from_raw_fd(fd)
        };
        Report::with_handle(prop, tier, out)
    }
    pub fn handle(&self) -> std::fs::File {
        self.out.try_clone().expect("stdout")
    }
    pub fn with_handle(prop: &str, tier: &str, out: std::fs::File) -> Report {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            stats: Stats::default(),
            found: vec![],
            parts: vec![],
            assumptions: vec![],
            extra: Default::default(),
            out,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn say(&mut self, s: &str) {
        let _ = writeln!(self.out, "{s}");
    }
    pub fn assume(&mut self, s: &str) {
        if !self.assumptions.iter().any(|x| x == s) {
            self.assumptions.push(s.into())
        }
    }
    pub fn add(&mut self, name: &str, r: (Stats, Vec<Found>)) {
        let (st, f) = r;
        eprintln!(
            "[{:6.1}s] {name}: {} states, {} transitions ({} accepted / {} rejected), depth {}, {} traces re-executed{}{}, {} deviation(s)",
            self.start.elapsed().as_secs_f64(),
            st.states,
            st.transitions,
            st.accepted,
            st.rejected,
            st.depth,
            st.traces,
            if st.closed { ", closed" } else { "" },
            if st.truncated { ", TRUNCATED" } else { "" },
            f.len()
        );
        self.parts.push(json!({
            "space": name, "states": st.states, "transitions": st.transitions, "accepted": st.accepted,
            "rejected": st.rejected, "depth": st.depth, "closed": st.closed, "truncated": st.truncated,
            "by_operation": st.by_op.iter().map(|(k,v)| (k.clone(), json!({"accepted": v.0, "rejected": v.1}))).collect::<serde_json::Map<_,_>>(),
        }));
        self.stats.merge(&st);
        self.found.extend(f);
    }
    /// Write evidence, print verdict lines and return the exit code.
    pub fn finish(mut self) -> i32 {
        let known = load_known(&self.prop);
        let mut lines = vec![];
        let mut viols = 0;
        let mut seen_known = std::collections::BTreeSet::new();
        let found = std::mem::take(&mut self.found);
        let mut other = std::collections::BTreeMap::<String, usize>::new();
        let mut per_kind = std::collections::BTreeMap::<String, usize>::new();
        for f in &found {
            if !f.viol.props.iter().any(|p| *p == self.prop) {
                *other.entry(format!("{:?} {}", f.viol.props, f.viol.kind)).or_default() += 1;
                if std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("other: {:?} {} | {} | {:?}", f.viol.props, f.viol.msg, f.scenario, f.path.iter().take(1).chain(f.path.iter().skip(1.max(f.path.len().saturating_sub(6)))).collect::<Vec<_>>());
                }
                continue;
            }
            if let Some(k) = known.iter().find(|k| k.matches(f)) {
                if seen_known.insert(k.what.clone()) {
                    lines.push(format!("KNOWN-FINDING: property={} {}", self.prop, k.what));
                }
                continue;
            }
            viols += 1;
            let c = per_kind.entry(f.viol.kind.clone()).or_default();
            *c += 1;
            if *c > 3 || viols > 30 {
                continue;
            }
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}-{}.json", self.prop, viols));
            let v = json!({"property": self.prop, "kind": f.viol.kind, "message": f.viol.msg, "scenario": f.scenario, "path": f.path,
                "properties": f.viol.props});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
            eprintln!("  {} [{}] {}", f.viol.kind, f.scenario, f.viol.msg);
            let cut = if f.path.len() > 60 { f.path.len() - 40 } else { 1 };
            for s in f.path.iter().take(1).chain(f.path.iter().skip(cut)) {
                eprintln!("      {s}");
            }
            lines.push(format!("VIOLATION property={} replay={}", self.prop, p.display()));
        }
        for (k, n) in other {
            eprintln!("  (not judged here: {k} x{n})");
        }
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.stats.states));
        cov.insert("transitions".into(), json!(self.stats.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(self.stats.traces));
        cov.insert("samples".into(), json!(self.stats.samples));
        cov.insert("accepted".into(), json!(self.stats.accepted));
        cov.insert("rejected".into(), json!(self.stats.rejected));
        cov.insert("exhaustive".into(), json!(!self.stats.truncated));
        cov.insert("spaces".into(), json!(self.parts));
        for (k, v) in std::mem::take(&mut self.extra) {
            cov.insert(k, v);
        }
        // replays of recorded transactions on agave's bank (thorough tiers, see run.sh)
        let mut bank_differs = false;
        if let Ok(f) = std::env::var("VERIF_CONFORM") {
            let v = std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).unwrap_or(json!({"differing": "no answer"}));
            bank_differs = v["differing"] != json!(0);
            cov.insert("replayed_on_agave_bank".into(), v);
        }
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viols, "known_findings_seen": seen_known.len(),
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        for l in lines {
            self.say(&l);
        }
        if viols > 0 {
            return 1;
        }
        if bank_differs {
            self.say(&format!("{}: the runtime model and agave's bank disagree (no verdict)", self.prop));
            return 3;
        }
        if self.stats.truncated {
            self.say(&format!("note: {} exploration was cut by its time or state bound", self.prop));
        }
        self.say(&format!(
            "OK property={} states={} transitions={} traces={} wall={:.1}s",
            self.prop,
            self.stats.states,
            self.stats.transitions,
            self.stats.traces,
            self.start.elapsed().as_secs_f64()
        ));
        0
    }
}

pub struct Known {
    pub kind: String,
    pub contains: Vec<String>,
    pub what: String,
}
impl Known {
    /// a finding is identified by its kind and by text that must occur in the scenario, message or path
    fn matches(&self, f: &Found) -> bool {
        let hay = format!("{}\n{}\n{}", f.scenario, f.viol.msg, f.path.join("\n"));
        f.viol.kind == self.kind && self.contains.iter().all(|c| hay.contains(c.as_str()))
    }
}
pub fn load_known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.jsonl")).unwrap_or_default();
    t.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(l).expect("known_findings.jsonl"))
        .filter(|v| v["property"] == prop && v["status"] == "known")
        .map(|v| Known {
            kind: v["kind"].as_str().unwrap().into(),
            contains: v["contains"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().into()).collect()).unwrap_or_default(),
            what: v["what"].as_str().unwrap().into(),
        })
        .collect()
}

/// A set-up step that the implementation should have accepted was rejected.
pub struct SetupFail(pub Viol);
