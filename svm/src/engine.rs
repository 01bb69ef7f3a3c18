//! Explicit-state exploration: parallel breadth-first search with a visited set over full state digests.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A deviation from a property, found on one explored transition/state.
#[derive(Clone, Debug)]
pub struct Viol {
    /// property ids this deviation contradicts
    pub props: Vec<&'static str>,
    /// short stable class (used to match known findings)
    pub kind: String,
    pub msg: String,
}
pub fn viol(props: &[&'static str], kind: impl Into<String>, msg: impl Into<String>) -> Viol {
    Viol { props: props.to_vec(), kind: kind.into(), msg: msg.into() }
}

pub struct Found {
    pub viol: Viol,
    pub scenario: String,
    pub path: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub depth: u64,
    pub accepted: u64,
    pub rejected: u64,
    /// recorded traces re-executed from the initial state on the implementation, with equal outcome
    pub traces: u64,
    pub truncated: bool,
    /// every reachable state was expanded before the depth bound
    pub closed: bool,
    pub by_op: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.depth = self.depth.max(o.depth);
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.truncated |= o.truncated;
        self.traces += o.traces;
        for (k, v) in &o.by_op {
            let e = self.by_op.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for s in &o.samples {
            if self.samples.len() < 40 {
                self.samples.push(s.clone());
            }
        }
    }
    pub fn op(&mut self, name: &str, ok: bool) {
        self.transitions += 1;
        let e = self.by_op.entry(name.to_string()).or_default();
        if ok {
            e.0 += 1;
            self.accepted += 1
        } else {
            e.1 += 1;
            self.rejected += 1
        }
    }
}

pub struct Step<S> {
    pub next: Option<S>,
    pub op: String,
    pub ok: bool,
}

pub trait Scenario: Sync {
    type S: Clone + Send + Sync;
    type A: Clone + Send + Sync;
    fn name(&self) -> String;
    fn depth(&self) -> usize;
    fn init(&self) -> Vec<(String, Self::S)>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    fn step(&self, s: &Self::S, a: &Self::A, v: &mut Vec<Viol>) -> Step<Self::S>;
    fn key(&self, s: &Self::S) -> u128;
    fn label(&self, a: &Self::A) -> String;
    fn max_states(&self) -> usize {
        3_000_000
    }
}

struct Node {
    parent: u32,
    act: u32,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// Re-execute the recorded action sequence of a node from its initial state; returns the labels and the final state.
fn replay<C: Scenario>(sc: &C, inits: &[(String, C::S)], nodes: &[Node], i: u32) -> (Vec<String>, C::S) {
    let mut acts = vec![];
    let mut n = i;
    while nodes[n as usize].parent != u32::MAX {
        acts.push(nodes[n as usize].act);
        n = nodes[n as usize].parent;
    }
    acts.reverse();
    let (l, s) = &inits[nodes[n as usize].act as usize];
    let mut s = s.clone();
    let mut labels = vec![l.clone()];
    for a in acts {
        let al = sc.actions(&s);
        let act = &al[a as usize];
        labels.push(sc.label(act));
        let mut v = vec![];
        s = sc.step(&s, act, &mut v).next.expect("replay diverged: the implementation is not deterministic");
    }
    (labels, s)
}

pub fn bfs<C: Scenario>(sc: &C, deadline: Instant) -> (Stats, Vec<Found>) {
    const SHARDS: usize = 64;
    let visited: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
    let seen = |k: u128| -> bool { !visited[(k as usize) % SHARDS].lock().unwrap().insert(k) };
    let mut nodes: Vec<Node> = vec![];
    let mut frontier: Vec<(u32, C::S)> = vec![];
    let mut stats = Stats::default();
    let mut raw: Vec<(u32, u32, Viol)> = vec![];
    let inits = sc.init();
    for (i, (_, s)) in inits.iter().enumerate() {
        if seen(sc.key(s)) {
            continue;
        }
        nodes.push(Node { parent: u32::MAX, act: i as u32 });
        frontier.push((nodes.len() as u32 - 1, s.clone()));
        stats.states += 1;
    }
    let mut d = 0;
    while !frontier.is_empty() && d < sc.depth() {
        let next_i = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        type Out<S> = (Vec<(u32, u32, S)>, Stats, Vec<(u32, u32, Viol)>);
        let out: Mutex<Out<C::S>> = Mutex::new((vec![], Stats::default(), vec![]));
        let total_states = AtomicUsize::new(stats.states as usize);
        let last = d + 1 == sc.depth();
        std::thread::scope(|t| {
            for _ in 0..threads() {
                t.spawn(|| {
                    let mut st = Stats::default();
                    let mut nx = vec![];
                    let mut vs = vec![];
                    loop {
                        let b = next_i.fetch_add(16, Ordering::Relaxed);
                        if b >= frontier.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for (id, s) in frontier[b..(b + 16).min(frontier.len())].iter() {
                            for (ai, a) in sc.actions(s).iter().enumerate() {
                                let mut v = vec![];
                                let r = sc.step(s, a, &mut v);
                                st.op(&r.op, r.ok);
                                for x in v {
                                    vs.push((*id, ai as u32, x));
                                }
                                if let Some(n) = r.next {
                                    if !seen(sc.key(&n)) {
                                        st.states += 1;
                                        total_states.fetch_add(1, Ordering::Relaxed);
                                        if !last || nx.len() < 64 {
                                            nx.push((*id, ai as u32, n));
                                        }
                                    }
                                }
                            }
                        }
                        if Instant::now() > deadline || total_states.load(Ordering::Relaxed) > sc.max_states() || vs.len() > 2000 {
                            st.truncated = true;
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.0.append(&mut nx);
                    o.1.merge(&st);
                    o.2.append(&mut vs);
                });
            }
        });
        let (mut nx, st, mut vs) = out.into_inner().unwrap();
        stats.merge(&st);
        vs.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        raw.extend(vs);
        nx.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        frontier = nx
            .into_iter()
            .map(|(parent, act, s)| {
                nodes.push(Node { parent, act });
                (nodes.len() as u32 - 1, s)
            })
            .collect();
        d += 1;
        if st.truncated {
            break;
        }
        stats.depth = d as u64;
        if raw.len() >= 100 {
            break;
        }
    }
    stats.closed = frontier.is_empty() && !stats.truncated;
    let mut found: Vec<Found> = vec![];
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    for (id, a, v) in raw {
        let c = kinds.entry(format!("{}|{:?}", v.kind, v.props)).or_default();
        *c += 1;
        if *c > 5 || found.len() > 100 {
            continue;
        }
        let (mut path, s) = replay(sc, &inits, &nodes, id);
        path.push(sc.label(&sc.actions(&s)[a as usize]));
        found.push(Found { viol: v, scenario: sc.name(), path });
    }
    // validate recorded traces: re-execute a spread of them on the implementation from the initial state
    let step = (frontier.len() / 100).max(1);
    for (n, (id, s)) in frontier.iter().step_by(step).enumerate() {
        let (path, s2) = replay(sc, &inits, &nodes, *id);
        assert!(sc.key(&s2) == sc.key(s), "replay diverged: the implementation is not deterministic");
        stats.traces += 1;
        if n % 50 == 0 && stats.samples.len() < 4 {
            stats.samples.push(format!("{}: {}", sc.name(), path.join(" ; ")));
        }
    }
    (stats, found)
}

/// Exhaustive enumeration of independent cases 0..n in parallel.
pub fn sweep(
    name: &str,
    n: usize,
    deadline: Instant,
    f: impl Fn(usize, &mut Vec<Viol>, &mut Stats) + Sync,
    label: impl Fn(usize) -> String + Sync,
) -> (Stats, Vec<Found>) {
    let next = AtomicUsize::new(0);
    let out: Mutex<(Stats, Vec<Found>)> = Mutex::new((Stats::default(), vec![]));
    std::thread::scope(|t| {
        for _ in 0..threads() {
            t.spawn(|| {
                let mut st = Stats::default();
                let mut fs = vec![];
                let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    if Instant::now() > deadline {
                        st.truncated = true;
                        break;
                    }
                    let mut v = vec![];
                    st.states += 1;
                    f(i, &mut v, &mut st);
                    for x in v {
                        let c = kinds.entry(format!("{}|{:?}", x.kind, x.props)).or_default();
                        *c += 1;
                        if *c <= 20 {
                            fs.push(Found { viol: x, scenario: name.to_string(), path: vec![label(i)] });
                        }
                    }
                }
                let mut o = out.lock().unwrap();
                o.0.merge(&st);
                o.1.append(&mut fs);
            });
        }
    });
    let (mut st, mut fs) = out.into_inner().unwrap();
    st.depth = 1;
    // re-execute a spread of the cases on the implementation: same outcome counts
    for i in (0..n).step_by((n / 40).max(1)) {
        let (mut a, mut b) = (Stats::default(), Stats::default());
        let (mut va, mut vb) = (vec![], vec![]);
        f(i, &mut va, &mut a);
        f(i, &mut vb, &mut b);
        assert!(a.by_op == b.by_op && va.len() == vb.len(), "case {} is not deterministic", label(i));
        st.traces += 1;
    }
    if n > 0 {
        st.samples.push(format!("{name}: {}", label(n - 1)));
    }
    fs.sort_by(|a, b| a.path.cmp(&b.path));
    (st, fs)
}

pub fn digest(parts: &[&[u8]]) -> u128 {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    let r = h.finalize();
    u128::from_le_bytes(r[..16].try_into().unwrap())
}
