//! A controlled runtime: one task runs at a time, a virtual clock, and every decision (which task goes on, which
//! event of the environment happens next and with what outcome) is taken by the explorer through `Env::choose`.
//!
//! Tasks are polled on poller threads; exactly one thread holds the baton. A poll can be suspended in the middle
//! (at a scheduling point, or in a blocking call), then another poller thread goes on with the other tasks.
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;
pub type Msg = Box<dyn Any + Send>;
type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;

/// why a task ended
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Panicked,
    Cancelled,
}

pub struct Op {
    pub id: u64,
    pub task: TaskId,
    pub what: Msg,
}

/// what a scheduling decision is about
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Point {
    /// several tasks are ready
    Pick,
    /// the running task is about to take a lock: 0 goes on
    Preempt,
    /// next event of the environment: 0 is the nominal one
    Event,
}

pub trait Env: Send {
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    /// decision with `n` alternatives; 0 is the nominal one. `what` describes the point, for traces.
    fn choose(&mut self, p: Point, n: usize, what: &str) -> usize;
    /// due time of the earliest event
    fn next_due(&self) -> Option<u64>;
    /// number of alternatives at the earliest event
    fn alts(&mut self) -> usize;
    fn fire(&mut self, rt: &mut Rt, alt: usize);
    /// an operation was issued by a task
    fn issue(&mut self, rt: &mut Rt, op: Op);
    /// a message was taken out of a channel
    fn consumed(&mut self, rt: &mut Rt, task: TaskId, chan: u64, msg: &Msg);
    fn chan_dropped(&mut self, rt: &mut Rt, chan: u64);
    fn ended(&mut self, rt: &mut Rt, t: TaskId, how: End);
    /// nothing is ready (full: and no poll is suspended); the clock is about to move
    fn quiet(&mut self, rt: &mut Rt, full: bool);
    /// the execution is over
    fn over(&self) -> bool;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Waiting,
    Ready,
    Running,
    /// suspended in the middle of a poll, on thread n, runnable
    Suspended(usize),
    /// suspended in the middle of a poll until the given time
    Stalled(usize),
    /// blocked in the middle of a poll (blocking call)
    Blocked(usize),
    Gone,
}

struct Task {
    st: St,
    fut: Option<Fut>,
    notified: bool,
    aborted: bool,
    /// unwind as soon as it runs again
    kill: bool,
    join: Vec<Waker>,
    end: Option<End>,
    daemon: bool,
}

struct Thread {
    cv: Arc<Condvar>,
    baton: bool,
}

pub struct Rt {
    pub now: u64,
    pub gen: u64,
    tasks: Vec<Task>,
    ready: VecDeque<TaskId>,
    timers: BTreeMap<(u64, u64), Timer>,
    seq: u64,
    ops: BTreeMap<u64, (Option<Msg>, Option<Waker>, bool)>,
    chans: BTreeMap<u64, Chan>,
    wake: Vec<Waker>,
    threads: Vec<Thread>,
    idle: Vec<usize>,
    env: Option<Box<dyn Env>>,
    killing: bool,
    forced: Option<TaskId>,
    finished: bool,
    live_threads: usize,
    pub steps: u64,
    pub polls: u64,
    pub switches: u64,
    pub stall: u64,
    pub http: Option<Msg>,
    pub preempt_on: bool,
}
enum Timer {
    Wake(u64),
    Stall(TaskId),
}
struct Chan {
    q: VecDeque<Msg>,
    closed: bool,
    waker: Option<Waker>,
    blocked: Option<TaskId>,
}

static RT: Mutex<Option<Rt>> = Mutex::new(None);
static CTRL: Condvar = Condvar::new();
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
static GEN: AtomicU64 = AtomicU64::new(0);

thread_local! {
    pub static IN_APP: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<Option<TaskId>> = const { Cell::new(None) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct Kill;

fn lock() -> MutexGuard<'static, Option<Rt>> {
    match RT.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = lock();
    f(g.as_mut().expect("no execution"))
}
fn with_opt<T>(f: impl FnOnce(&mut Rt) -> T) -> Option<T> {
    let mut g = lock();
    g.as_mut().map(f)
}
pub fn current() -> TaskId {
    CUR.with(|c| c.get()).unwrap_or(usize::MAX)
}

struct TaskWaker {
    gen: u64,
    id: TaskId,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        with_opt(|rt| {
            if rt.gen == self.gen {
                rt.wake_task(self.id)
            }
        });
    }
}

impl Rt {
    fn wake_task(&mut self, id: TaskId) {
        let t = &mut self.tasks[id];
        match t.st {
            St::Waiting => {
                t.st = St::Ready;
                self.ready.push_back(id);
            }
            St::Running | St::Suspended(_) | St::Stalled(_) | St::Blocked(_) => t.notified = true,
            St::Ready | St::Gone => {}
        }
    }
    pub fn spawn(&mut self, fut: Fut, daemon: bool) -> TaskId {
        let id = self.tasks.len();
        self.tasks.push(Task {
            st: St::Ready,
            fut: Some(fut),
            notified: false,
            aborted: false,
            kill: false,
            join: vec![],
            end: None,
            daemon,
        });
        self.ready.push_back(id);
        id
    }
    pub fn alive(&self, id: TaskId) -> bool {
        self.tasks.get(id).is_some_and(|t| t.st != St::Gone && !t.aborted && !t.kill)
    }
    pub fn is_stalled_or_suspended(&self, id: TaskId) -> bool {
        self.tasks.get(id).is_some_and(|t| matches!(t.st, St::Suspended(_) | St::Stalled(_)))
    }
    pub fn abort(&mut self, id: TaskId) {
        let t = &mut self.tasks[id];
        if t.st == St::Gone {
            return;
        }
        t.aborted = true;
        self.wake_task(id);
    }
    /// end of the process: every task of it dies
    pub fn kill_all(&mut self) {
        for id in 0..self.tasks.len() {
            let t = &mut self.tasks[id];
            if t.st == St::Gone || t.daemon {
                continue;
            }
            t.kill = true;
            t.aborted = true;
            match t.st {
                St::Waiting => self.wake_task(id),
                St::Stalled(n) | St::Blocked(n) => {
                    t.st = St::Suspended(n);
                    self.ready.push_front(id);
                }
                _ => {}
            }
        }
        self.http = None;
    }
    pub fn complete(&mut self, op: u64, m: Msg) {
        if let Some(e) = self.ops.get_mut(&op) {
            if e.2 {
                self.ops.remove(&op);
                return;
            }
            e.0 = Some(m);
            if let Some(w) = e.1.take() {
                self.wake.push(w);
            }
        }
    }
    /// is somebody still waiting for the answer of this operation?
    pub fn op_wanted(&self, op: u64) -> bool {
        self.ops.get(&op).is_some_and(|e| !e.2)
    }
    pub fn new_chan(&mut self) -> u64 {
        self.seq += 1;
        let id = self.seq;
        self.chans.insert(id, Chan { q: VecDeque::new(), closed: false, waker: None, blocked: None });
        id
    }
    fn chan_notify(&mut self, id: u64) {
        let Some(c) = self.chans.get_mut(&id) else { return };
        if let Some(w) = c.waker.take() {
            self.wake.push(w);
        }
        if let Some(t) = c.blocked.take() {
            if let St::Blocked(n) = self.tasks[t].st {
                self.tasks[t].st = St::Suspended(n);
                self.ready.push_back(t);
            }
        }
    }
    pub fn chan_send(&mut self, id: u64, m: Msg) {
        if let Some(c) = self.chans.get_mut(&id) {
            if !c.closed {
                c.q.push_back(m);
            }
        }
        self.chan_notify(id);
    }
    pub fn chan_close(&mut self, id: u64) {
        if let Some(c) = self.chans.get_mut(&id) {
            c.closed = true;
        }
        self.chan_notify(id);
    }
    pub fn chan_empty(&self, id: u64) -> bool {
        self.chans.get(&id).is_none_or(|c| c.q.is_empty())
    }
    fn timer(&mut self, at: u64, t: Timer) -> (u64, u64) {
        self.seq += 1;
        self.timers.insert((at, self.seq), t);
        (at, self.seq)
    }
    fn env<T>(&mut self, f: impl FnOnce(&mut dyn Env, &mut Rt) -> T) -> T {
        let mut e = self.env.take().expect("environment in use");
        let r = f(e.as_mut(), self);
        self.env = Some(e);
        r
    }
    fn suspended(&self) -> bool {
        self.tasks.iter().any(|t| matches!(t.st, St::Stalled(_) | St::Suspended(_)))
    }
}

fn flush_wakes(g: &mut MutexGuard<'static, Option<Rt>>) -> Vec<Waker> {
    g.as_mut().map(|rt| std::mem::take(&mut rt.wake)).unwrap_or_default()
}

// ---------------------------------------------------------------- scheduler (runs on the thread with the baton)

enum Next {
    Poll(TaskId, Fut),
    DropFut(TaskId, Option<Fut>, End),
    Resume(TaskId, usize),
    Again,
    Finish,
}

fn decide(rt: &mut Rt) -> Next {
    rt.steps += 1;
    if !rt.killing && rt.env.as_ref().is_some_and(|e| e.over()) {
        return Next::Finish;
    }
    if let Some(n) = (!rt.ready.is_empty()).then_some(rt.ready.len()) {
        // tasks being killed go first, without a choice
        let dying = |t: &Task| t.kill || (t.aborted && t.st == St::Ready);
        let forced = rt.forced.take();
        let mut i = rt
            .ready
            .iter()
            .position(|t| dying(&rt.tasks[*t]))
            .or_else(|| forced.and_then(|f| rt.ready.iter().position(|t| *t == f)))
            .unwrap_or(usize::MAX);
        if i == usize::MAX {
            i = 0;
            if n > 1 {
                let what = format!("run one of {:?}", rt.ready);
                i = rt.env(|e, _| e.choose(Point::Pick, n, &what));
            }
        }
        let id = rt.ready.remove(i).unwrap();
        let t = &mut rt.tasks[id];
        match t.st {
            St::Suspended(n) => {
                t.st = St::Running;
                rt.switches += 1;
                return Next::Resume(id, n);
            }
            St::Ready => {
                let f = t.fut.take();
                if t.aborted {
                    t.st = St::Running;
                    return Next::DropFut(id, f, End::Cancelled);
                }
                t.st = St::Running;
                t.notified = false;
                rt.polls += 1;
                return Next::Poll(id, f.expect("no future"));
            }
            s => panic!("task {id} in ready list is {s:?}"),
        }
    }
    let full = !rt.suspended();
    rt.env(|e, rt| e.quiet(rt, full));
    if !rt.ready.is_empty() || !rt.wake.is_empty() {
        return Next::Again;
    }
    if rt.env.as_ref().is_some_and(|e| e.over()) {
        return Next::Finish;
    }
    let tdue = rt.timers.keys().next().map(|k| k.0);
    let edue = rt.env.as_ref().unwrap().next_due();
    match (tdue, edue) {
        (None, None) => Next::Finish,
        (t, Some(e)) if t.is_none_or(|t| e <= t) => {
            let n = rt.env(|env, _| env.alts());
            let alt = if n > 1 { rt.env(|env, _| env.choose(Point::Event, n, "event")) } else { 0 };
            if e > rt.now {
                rt.now = e;
                CLOCK.store(rt.now, Ordering::Relaxed);
            }
            rt.env(|env, rt| env.fire(rt, alt));
            Next::Again
        }
        _ => {
            let (k, t) = rt.timers.pop_first().unwrap();
            if k.0 > rt.now {
                rt.now = k.0;
                CLOCK.store(rt.now, Ordering::Relaxed);
            }
            match t {
                Timer::Wake(op) => {
                    if let Some((_, w, _)) = rt.ops.remove(&op) {
                        if let Some(w) = w {
                            rt.wake.push(w);
                        }
                    }
                }
                Timer::Stall(id) => {
                    if let St::Stalled(n) = rt.tasks[id].st {
                        rt.tasks[id].st = St::Suspended(n);
                        rt.ready.push_back(id);
                    }
                }
            }
            Next::Again
        }
    }
}

fn end_task(id: TaskId, how: End) {
    let wakers = with(|rt| {
        let t = &mut rt.tasks[id];
        t.st = St::Gone;
        t.end = Some(how);
        let mut w = std::mem::take(&mut t.join);
        if !rt.killing {
            rt.env(|e, rt| e.ended(rt, id, how));
        }
        w.append(&mut rt.wake);
        w
    });
    for w in wakers {
        w.wake();
    }
}

/// hand the baton to another thread and wait for it to come back; true: this thread must leave
fn pass_and_wait(mut g: MutexGuard<'static, Option<Rt>>, me: usize, to: Option<usize>) {
    let rt = g.as_mut().unwrap();
    rt.threads[me].baton = false;
    match to {
        Some(n) => {
            rt.threads[n].baton = true;
            rt.threads[n].cv.notify_one();
        }
        None => {
            if let Some(n) = rt.idle.pop() {
                rt.threads[n].baton = true;
                rt.threads[n].cv.notify_one();
            } else {
                start_poller(rt);
            }
        }
    }
    let cv = Arc::clone(&rt.threads[me].cv);
    while !g.as_ref().unwrap().threads[me].baton {
        g = match cv.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
}

fn start_poller(rt: &mut Rt) {
    let n = rt.threads.len();
    rt.threads.push(Thread { cv: Arc::new(Condvar::new()), baton: true });
    rt.live_threads += 1;
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            ME.with(|m| m.set(n));
            IN_APP.with(|f| f.set(true));
            poller(n);
            let mut g = lock();
            let rt = g.as_mut().unwrap();
            rt.live_threads -= 1;
            CTRL.notify_all();
        })
        .expect("thread");
}

fn poller(me: usize) {
    loop {
        let mut g = lock();
        let wakes = flush_wakes(&mut g);
        if !wakes.is_empty() {
            drop(g);
            for w in wakes {
                w.wake();
            }
            continue;
        }
        let rt = g.as_mut().unwrap();
        if rt.killing {
            // teardown: unwind the suspended polls one after the other, then let the idle threads leave
            if let Some(id) = (0..rt.tasks.len())
                .find(|i| matches!(rt.tasks[*i].st, St::Suspended(_) | St::Stalled(_) | St::Blocked(_)))
            {
                let (St::Suspended(n) | St::Stalled(n) | St::Blocked(n)) = rt.tasks[id].st else { unreachable!() };
                rt.tasks[id].st = St::Running;
                rt.tasks[id].kill = true;
                rt.idle.push(me);
                pass_and_wait(g, me, Some(n));
                continue;
            }
            if let Some(n) = rt.idle.pop() {
                rt.threads[n].baton = true;
                rt.threads[n].cv.notify_one();
                return;
            }
            rt.finished = true;
            return;
        }
        match decide(rt) {
            Next::Again => {}
            Next::Finish => {
                rt.killing = true;
            }
            Next::Resume(_, n) => {
                rt.idle.push(me);
                pass_and_wait(g, me, Some(n));
            }
            Next::DropFut(id, f, how) => {
                drop(g);
                CUR.with(|c| c.set(Some(id)));
                let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                CUR.with(|c| c.set(None));
                end_task(id, how);
            }
            Next::Poll(id, mut f) => {
                let w: Waker = Arc::new(TaskWaker { gen: rt.gen, id }).into();
                drop(g);
                CUR.with(|c| c.set(Some(id)));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut cx = Context::from_waker(&w);
                    f.as_mut().poll(&mut cx)
                }));
                let (end, drop_it) = match r {
                    Ok(Poll::Pending) => {
                        let mut g = lock();
                        let rt = g.as_mut().unwrap();
                        let t = &mut rt.tasks[id];
                        if t.aborted || rt.killing {
                            (Some(End::Cancelled), Some(f))
                        } else {
                            t.fut = Some(f);
                            t.st = St::Waiting;
                            if t.notified {
                                t.notified = false;
                                t.st = St::Ready;
                                rt.ready.push_back(id);
                            }
                            (None, None)
                        }
                    }
                    Ok(Poll::Ready(())) => (Some(End::Done), Some(f)),
                    Err(p) => (Some(if p.is::<Kill>() { End::Cancelled } else { End::Panicked }), Some(f)),
                };
                if let Some(f) = drop_it {
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                }
                CUR.with(|c| c.set(None));
                if let Some(e) = end {
                    end_task(id, e);
                }
            }
        }
    }
}

fn check_kill(rt: &Rt, id: TaskId) -> bool {
    rt.killing || rt.tasks[id].kill
}
fn die() {
    if !std::thread::panicking() {
        resume_unwind(Box::new(Kill));
    }
}

/// the running task may be interrupted here (it stays in the middle of its poll)
pub fn sched_point(what: &'static str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || std::thread::panicking() {
        return;
    }
    let Some(id) = CUR.with(|c| c.get()) else { return };
    let mut g = lock();
    let rt = g.as_mut().unwrap();
    if check_kill(rt, id) {
        drop(g);
        die();
        return;
    }
    if !rt.preempt_on {
        return;
    }
    // wakers called outside of the scheduler may be pending: make them count
    let n = rt.ready.len();
    let stall = rt.stall;
    let alts = 1 + n + usize::from(stall > 0);
    if alts == 1 {
        return;
    }
    let what = format!("t{id} at {what}, ready {:?}", rt.ready);
    let c = rt.env(|e, _| e.choose(Point::Preempt, alts, &what));
    if c == 0 {
        return;
    }
    rt.switches += 1;
    if stall > 0 && c == 1 {
        rt.tasks[id].st = St::Stalled(me);
        let at = rt.now + stall;
        rt.timer(at, Timer::Stall(id));
    } else {
        let j = c - 1 - usize::from(stall > 0);
        rt.forced = Some(rt.ready[j]);
        rt.tasks[id].st = St::Suspended(me);
        rt.ready.push_back(id);
    }
    pass_and_wait(g, me, None);
    after_resume(id);
}
fn after_resume(id: TaskId) {
    CUR.with(|c| c.set(Some(id)));
    let kill = with(|rt| check_kill(rt, id));
    if kill {
        die();
    }
}

// ---------------------------------------------------------------- operations and channels

pub struct OpFuture {
    what: Option<Msg>,
    id: Option<u64>,
    gen: u64,
}
/// an operation answered by the environment
pub fn op(what: Msg) -> OpFuture {
    OpFuture { what: Some(what), id: None, gen: GEN.load(Ordering::Relaxed) }
}
impl Future for OpFuture {
    type Output = Msg;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Msg> {
        let task = current();
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if rt.killing {
            return Poll::Pending;
        }
        match self.id {
            None => {
                rt.seq += 1;
                let id = rt.seq;
                self.id = Some(id);
                rt.ops.insert(id, (None, Some(cx.waker().clone()), false));
                let what = self.what.take().unwrap();
                rt.env(|e, rt| e.issue(rt, Op { id, task, what }));
                Poll::Pending
            }
            Some(id) => {
                let e = rt.ops.get_mut(&id).unwrap();
                if let Some(m) = e.0.take() {
                    rt.ops.remove(&id);
                    self.id = Some(u64::MAX);
                    return Poll::Ready(m);
                }
                e.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for OpFuture {
    fn drop(&mut self) {
        let gen = self.gen;
        if let Some(id) = self.id {
            with_opt(|rt| {
                if rt.gen == gen {
                    if let Some(e) = rt.ops.get_mut(&id) {
                        e.2 = true;
                        e.1 = None;
                    }
                }
            });
        }
    }
}

/// issue an operation from synchronous code and block the poll until it is answered
pub fn op_blocking(what: Msg) -> Msg {
    let id = current();
    let me = ME.with(|m| m.get());
    let opid;
    {
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if check_kill(rt, id) {
            drop(g);
            die();
            unreachable!();
        }
        rt.seq += 1;
        opid = rt.seq;
        // the answer comes through a waker which makes the blocked poll runnable
        let w: Waker = Arc::new(BlockWaker { gen: rt.gen, id }).into();
        rt.ops.insert(opid, (None, Some(w), false));
        rt.env(|e, rt| e.issue(rt, Op { id: opid, task: id, what }));
    }
    loop {
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if let Some(m) = rt.ops.get_mut(&opid).and_then(|e| e.0.take()) {
            rt.ops.remove(&opid);
            return m;
        }
        rt.tasks[id].st = St::Blocked(me);
        pass_and_wait(g, me, None);
        after_resume(id);
    }
}
struct BlockWaker {
    gen: u64,
    id: TaskId,
}
impl Wake for BlockWaker {
    fn wake(self: Arc<Self>) {
        with_opt(|rt| {
            if rt.gen == self.gen {
                if let St::Blocked(n) = rt.tasks[self.id].st {
                    rt.tasks[self.id].st = St::Suspended(n);
                    rt.ready.push_back(self.id);
                }
            }
        });
    }
}

pub enum Recv {
    Msg(Msg),
    Closed,
    Empty,
}
pub fn chan_try(chan: u64) -> Recv {
    let task = current();
    let mut g = lock();
    let Some(rt) = g.as_mut() else { return Recv::Closed };
    let Some(c) = rt.chans.get_mut(&chan) else { return Recv::Closed };
    match c.q.pop_front() {
        Some(m) => {
            if !rt.killing {
                rt.env(|e, rt| e.consumed(rt, task, chan, &m));
            }
            Recv::Msg(m)
        }
        None if c.closed => Recv::Closed,
        None => Recv::Empty,
    }
}
/// blocking receive (None: closed)
pub fn chan_recv(chan: u64) -> Option<Msg> {
    let me = ME.with(|m| m.get());
    let id = current();
    loop {
        match chan_try(chan) {
            Recv::Msg(m) => return Some(m),
            Recv::Closed => return None,
            Recv::Empty => {}
        }
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if check_kill(rt, id) {
            drop(g);
            die();
            return None;
        }
        rt.chans.get_mut(&chan).unwrap().blocked = Some(id);
        rt.tasks[id].st = St::Blocked(me);
        pass_and_wait(g, me, None);
        after_resume(id);
    }
}
/// blocking receive with a deadline (Empty: it passed)
pub fn chan_recv_until(chan: u64, at: u64) -> Recv {
    let me = ME.with(|m| m.get());
    let id = current();
    let w: Waker = Arc::new(BlockWaker { gen: gen(), id }).into();
    let mut timer = Sleep::at_ns(at);
    loop {
        match chan_try(chan) {
            Recv::Empty => {}
            r => return r,
        }
        let late = Pin::new(&mut timer).poll(&mut Context::from_waker(&w)).is_ready();
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if check_kill(rt, id) {
            drop(g);
            die();
            return Recv::Closed;
        }
        if late {
            rt.chans.get_mut(&chan).unwrap().blocked = None;
            return Recv::Empty;
        }
        rt.chans.get_mut(&chan).unwrap().blocked = Some(id);
        rt.tasks[id].st = St::Blocked(me);
        pass_and_wait(g, me, None);
        after_resume(id);
    }
}
/// sleep as a thread does: the poll is blocked
pub fn block_ns(ns: u64) {
    let me = ME.with(|m| m.get());
    let id = current();
    let w: Waker = Arc::new(BlockWaker { gen: gen(), id }).into();
    let mut timer = sleep_ns(ns);
    while Pin::new(&mut timer).poll(&mut Context::from_waker(&w)).is_pending() {
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        if check_kill(rt, id) {
            drop(g);
            die();
            return;
        }
        rt.tasks[id].st = St::Blocked(me);
        pass_and_wait(g, me, None);
        after_resume(id);
    }
}
pub fn chan_poll(chan: u64, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
    match chan_try(chan) {
        Recv::Msg(m) => Poll::Ready(Some(m)),
        Recv::Closed => Poll::Ready(None),
        Recv::Empty => {
            with(|rt| rt.chans.get_mut(&chan).unwrap().waker = Some(cx.waker().clone()));
            Poll::Pending
        }
    }
}
pub fn chan_drop(gen: u64, chan: u64) {
    with_opt(|rt| {
        if rt.gen == gen && rt.chans.remove(&chan).is_some() && !rt.killing {
            rt.env(|e, rt| e.chan_dropped(rt, chan));
        }
    });
}
pub fn gen() -> u64 {
    GEN.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- time

pub struct Sleep {
    at: Option<u64>,
    dur: u64,
    op: Option<(u64, (u64, u64))>,
    gen: u64,
}
pub fn sleep_ns(ns: u64) -> Sleep {
    // the deadline is fixed when the future is made, as in tokio
    let at = with_opt(|rt| rt.now.saturating_add(ns));
    Sleep { at, dur: ns, op: None, gen: GEN.load(Ordering::Relaxed) }
}
impl Sleep {
    pub fn at_ns(at: u64) -> Sleep {
        Sleep { at: Some(at), dur: 0, op: None, gen: GEN.load(Ordering::Relaxed) }
    }
    fn cancel(&mut self) {
        if let Some((op, key)) = self.op.take() {
            let gen = self.gen;
            with_opt(|rt| {
                if rt.gen == gen {
                    rt.ops.remove(&op);
                    rt.timers.remove(&key);
                }
            });
        }
    }
    pub fn reset_ns(&mut self, at: u64) {
        self.cancel();
        self.at = Some(at);
    }
    pub fn elapsed(&self) -> bool {
        with_opt(|rt| self.at.is_some_and(|a| a <= rt.now)).unwrap_or(true)
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = lock();
        let rt = g.as_mut().unwrap();
        let at = self.at.unwrap_or(rt.now + self.dur);
        self.at = Some(at);
        if at <= rt.now {
            return Poll::Ready(());
        }
        if rt.killing {
            return Poll::Pending;
        }
        match self.op {
            Some((op, _)) => match rt.ops.get_mut(&op) {
                Some(e) => e.1 = Some(cx.waker().clone()),
                None => return Poll::Ready(()),
            },
            None => {
                rt.seq += 1;
                let op = rt.seq;
                rt.ops.insert(op, (None, Some(cx.waker().clone()), false));
                let key = rt.timer(at, Timer::Wake(op));
                drop(g);
                self.op = Some((op, key));
            }
        }
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.cancel();
    }
}
pub fn now_ns() -> u64 {
    CLOCK.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- tasks

struct JoinState<T> {
    out: Mutex<Option<std::thread::Result<T>>>,
}
pub struct Join<T> {
    pub id: TaskId,
    gen: u64,
    st: Arc<JoinState<T>>,
}
pub enum Joined<T> {
    Ok(T),
    Panic(Msg),
    Cancelled,
}
pub fn spawn<F>(fut: F) -> Join<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_as(fut, false)
}
pub fn spawn_as<F>(fut: F, daemon: bool) -> Join<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let st = Arc::new(JoinState { out: Mutex::new(None) });
    let st2 = Arc::clone(&st);
    let body = Box::pin(async move {
        let r = CatchUnwind(Box::pin(fut)).await;
        match r {
            Ok(v) => *st2.out.lock().unwrap() = Some(Ok(v)),
            Err(p) => {
                if p.is::<Kill>() {
                    resume_unwind(p);
                }
                *st2.out.lock().unwrap() = Some(Err(p));
                resume_unwind(Box::new("task panicked"));
            }
        }
    });
    let mut g = lock();
    match g.as_mut() {
        Some(rt) if !rt.killing => {
            let id = rt.spawn(body, daemon);
            Join { id, gen: rt.gen, st }
        }
        _ => {
            drop(g);
            drop(body);
            Join { id: usize::MAX, gen: 0, st }
        }
    }
}
struct CatchUnwind<T>(Pin<Box<dyn Future<Output = T> + Send>>);
impl<T> Future for CatchUnwind<T> {
    type Output = std::thread::Result<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(p) => Poll::Ready(Err(p)),
        }
    }
}
impl<T> Join<T> {
    pub fn abort_handle(&self) -> (TaskId, u64) {
        (self.id, self.gen)
    }
    pub fn abort(&self) {
        abort(self.id, self.gen)
    }
    pub fn is_finished(&self) -> bool {
        is_finished(self.id, self.gen)
    }
    pub fn poll_join(&self, cx: &mut Context<'_>) -> Poll<Joined<T>> {
        let end = with_opt(|rt| {
            if rt.gen != self.gen || rt.killing {
                return None;
            }
            let t = &mut rt.tasks[self.id];
            if t.end.is_none() {
                t.join.push(cx.waker().clone());
            }
            t.end
        })
        .flatten();
        match end {
            None => Poll::Pending,
            Some(_) => Poll::Ready(match self.st.out.lock().unwrap().take() {
                Some(Ok(v)) => Joined::Ok(v),
                Some(Err(p)) => Joined::Panic(p),
                None => Joined::Cancelled,
            }),
        }
    }
}
pub fn abort(id: TaskId, gen: u64) {
    with_opt(|rt| {
        if rt.gen == gen {
            rt.abort(id)
        }
    });
}
pub fn is_finished(id: TaskId, gen: u64) -> bool {
    with_opt(|rt| rt.gen != gen || rt.tasks[id].st == St::Gone).unwrap_or(true)
}

// ---------------------------------------------------------------- one execution

pub struct Outcome {
    pub env: Box<dyn Env>,
    pub info: Outcome2,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Outcome2 {
    pub steps: u64,
    pub polls: u64,
    pub switches: u64,
    pub now: u64,
}
impl Outcome {
    pub fn split(self) -> (Box<dyn Env>, Outcome2) {
        (self.env, self.info)
    }
}

/// run one execution to its end
pub fn run(env: Box<dyn Env>, stall: u64, preempt_on: bool, first: impl FnOnce(&mut Rt)) -> Outcome {
    let gen = GEN.fetch_add(1, Ordering::Relaxed) + 1;
    CLOCK.store(SEC, Ordering::Relaxed);
    let mut rt = Rt {
        now: SEC,
        gen,
        tasks: vec![],
        ready: VecDeque::new(),
        timers: BTreeMap::new(),
        seq: 0,
        ops: BTreeMap::new(),
        chans: BTreeMap::new(),
        wake: vec![],
        threads: vec![],
        idle: vec![],
        env: Some(env),
        killing: false,
        forced: None,
        finished: false,
        live_threads: 0,
        steps: 0,
        polls: 0,
        switches: 0,
        stall,
        http: None,
        preempt_on,
    };
    first(&mut rt);
    let mut g = lock();
    *g = Some(rt);
    start_poller(g.as_mut().unwrap());
    loop {
        let r = g.as_ref().unwrap();
        if r.finished && r.live_threads == 0 {
            break;
        }
        g = match CTRL.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
    let mut rt = g.take().unwrap();
    drop(g);
    // drop what is left of the tasks with no execution installed
    let futs: Vec<_> = rt.tasks.iter_mut().filter_map(|t| t.fut.take()).collect();
    let _ = catch_unwind(AssertUnwindSafe(move || drop(futs)));
    let info = Outcome2 { steps: rt.steps, polls: rt.polls, switches: rt.switches, now: rt.now };
    Outcome { env: rt.env.take().unwrap(), info }
}
