//! The parts of tokio the oracle can use, on the explorer's runtime.
pub use mc_tokio_macros::main;
pub use real::{join, pin, select, try_join};
pub use real::io;
pub use task::spawn;

#[allow(non_snake_case)]
pub mod sync {
    pub use real::sync::*;
    use std::ops::{Deref, DerefMut};
    use std::sync::Arc;

    #[cfg(feature = "release-points")]
    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<real::sync::RwLockReadGuard<'a, T>>);
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            drop(self.0.take());
            mcrt::sched_point("released");
        }
    }
    #[cfg(feature = "release-points")]
    fn wrap_RwLockReadGuard<T: ?Sized>(g: real::sync::RwLockReadGuard<'_, T>) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard(Some(g))
    }
    #[cfg(not(feature = "release-points"))]
    fn wrap_RwLockReadGuard<T: ?Sized>(g: real::sync::RwLockReadGuard<'_, T>) -> RwLockReadGuard<'_, T> {
        g
    }
    #[cfg(feature = "release-points")]
    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<real::sync::RwLockWriteGuard<'a, T>>);
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            drop(self.0.take());
            mcrt::sched_point("released");
        }
    }
    #[cfg(feature = "release-points")]
    fn wrap_RwLockWriteGuard<T: ?Sized>(g: real::sync::RwLockWriteGuard<'_, T>) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard(Some(g))
    }
    #[cfg(not(feature = "release-points"))]
    fn wrap_RwLockWriteGuard<T: ?Sized>(g: real::sync::RwLockWriteGuard<'_, T>) -> RwLockWriteGuard<'_, T> {
        g
    }
    #[cfg(feature = "release-points")]
    pub struct MutexGuard<'a, T: ?Sized>(Option<real::sync::MutexGuard<'a, T>>);
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    #[cfg(feature = "release-points")]
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            drop(self.0.take());
            mcrt::sched_point("released");
        }
    }
    #[cfg(feature = "release-points")]
    fn wrap_MutexGuard<T: ?Sized>(g: real::sync::MutexGuard<'_, T>) -> MutexGuard<'_, T> {
        MutexGuard(Some(g))
    }
    #[cfg(not(feature = "release-points"))]
    fn wrap_MutexGuard<T: ?Sized>(g: real::sync::MutexGuard<'_, T>) -> MutexGuard<'_, T> {
        g
    }
    /// the real lock, with a scheduling point before each acquisition
    #[derive(Debug, Default)]
    #[repr(transparent)]
    pub struct RwLock<T: ?Sized>(real::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock(real::sync::RwLock::new(t))
        }
        pub const fn const_new(t: T) -> Self {
            RwLock(real::sync::RwLock::const_new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            mcrt::sched_point("read lock");
            let p = Arc::into_raw(self) as *const real::sync::RwLock<T>;
            unsafe { Arc::from_raw(p) }.read_owned().await
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            mcrt::sched_point("write lock");
            let p = Arc::into_raw(self) as *const real::sync::RwLock<T>;
            unsafe { Arc::from_raw(p) }.write_owned().await
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            mcrt::sched_point("read lock");
            wrap_RwLockReadGuard(self.0.read().await)
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            mcrt::sched_point("write lock");
            wrap_RwLockWriteGuard(self.0.write().await)
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            mcrt::sched_point("try read lock");
            self.0.try_read().map(wrap_RwLockReadGuard)
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            mcrt::sched_point("try write lock");
            self.0.try_write().map(wrap_RwLockWriteGuard)
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    #[derive(Debug, Default)]
    #[repr(transparent)]
    pub struct Mutex<T: ?Sized>(real::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(real::sync::Mutex::new(t))
        }
        pub const fn const_new(t: T) -> Self {
            Mutex(real::sync::Mutex::const_new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            mcrt::sched_point("lock");
            let p = Arc::into_raw(self) as *const real::sync::Mutex<T>;
            unsafe { Arc::from_raw(p) }.lock_owned().await
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            mcrt::sched_point("lock");
            wrap_MutexGuard(self.0.lock().await)
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            mcrt::sched_point("try lock");
            self.0.try_lock().map(wrap_MutexGuard)
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    #[allow(dead_code)]
    fn _guards_are_the_real_ones<T>(g: RwLockWriteGuard<'_, T>) {
        fn d<X: Deref + DerefMut>(_: X) {}
        d(g)
    }
}

pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use real::task::{unconstrained, LocalSet};

    pub struct JoinHandle<T>(mcrt::Join<T>);
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            self.0.abort()
        }
        pub fn is_finished(&self) -> bool {
            self.0.is_finished()
        }
        pub fn abort_handle(&self) -> AbortHandle {
            let (i, g) = self.0.abort_handle();
            AbortHandle(i, g)
        }
        pub fn id(&self) -> Id {
            Id(self.0.id)
        }
    }
    impl<T> std::fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "JoinHandle({})", self.0.id)
        }
    }
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.poll_join(cx).map(|j| match j {
                mcrt::Joined::Ok(v) => Ok(v),
                mcrt::Joined::Panic(p) => Err(JoinError(Some(p.into()))),
                mcrt::Joined::Cancelled => Err(JoinError(None)),
            })
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Id(usize);
    #[derive(Clone, Debug)]
    pub struct AbortHandle(usize, u64);
    impl AbortHandle {
        pub fn abort(&self) {
            mcrt::abort(self.0, self.1)
        }
        pub fn is_finished(&self) -> bool {
            mcrt::is_finished(self.0, self.1)
        }
        pub fn id(&self) -> Id {
            Id(self.0)
        }
    }
    pub struct JoinError(Option<PanicBox>);
    struct PanicBox(std::sync::Mutex<Box<dyn std::any::Any + Send>>);
    impl From<Box<dyn std::any::Any + Send>> for PanicBox {
        fn from(p: Box<dyn std::any::Any + Send>) -> Self {
            PanicBox(std::sync::Mutex::new(p))
        }
    }
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.0.is_none()
        }
        pub fn is_panic(&self) -> bool {
            self.0.is_some()
        }
        pub fn into_panic(self) -> Box<dyn std::any::Any + Send> {
            self.0.expect("not a panic").0.into_inner().unwrap()
        }
        pub fn try_into_panic(self) -> Result<Box<dyn std::any::Any + Send>, JoinError> {
            match self.0 {
                Some(p) => Ok(p.0.into_inner().unwrap()),
                None => Err(self),
            }
        }
    }
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(if self.0.is_some() { "JoinError::Panic" } else { "JoinError::Cancelled" })
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(if self.0.is_some() { "task panicked" } else { "task was cancelled" })
        }
    }
    impl std::error::Error for JoinError {}

    #[track_caller]
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        JoinHandle(mcrt::spawn(f))
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        JoinHandle(mcrt::spawn(async move { f() }))
    }
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(move |cx| {
            if done {
                return Poll::Ready(());
            }
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    }

    /// join set over the explorer's tasks
    pub struct JoinSet<T> {
        v: Vec<JoinHandle<T>>,
    }
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet { v: vec![] }
        }
    }
    impl<T: Send + 'static> JoinSet<T> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
        {
            let h = spawn(f);
            let a = h.abort_handle();
            self.v.push(h);
            a
        }
        pub fn abort_all(&mut self) {
            for h in &self.v {
                h.abort()
            }
        }
        pub fn detach_all(&mut self) {
            self.v.clear()
        }
        pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
            if self.v.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.v.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                    self.v.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
        pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
            let i = self.v.iter().position(|h| h.is_finished())?;
            let mut h = self.v.remove(i);
            let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
            match Pin::new(&mut h).poll(&mut cx) {
                Poll::Ready(r) => Some(r),
                Poll::Pending => None,
            }
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub async fn join_all(mut self) -> Vec<T> {
            let mut out = vec![];
            while let Some(r) = self.join_next().await {
                out.push(r.expect("task failed"));
            }
            out
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.v {
                h.abort()
            }
        }
    }
}

pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use real::time::{Instant, MissedTickBehavior};
    pub use std::time::Duration;

    fn ns(d: Duration) -> u64 {
        // tokio's timers have a resolution of one millisecond, rounded up
        u64::try_from(d.as_nanos().div_ceil(1_000_000) * 1_000_000).unwrap_or(u64::MAX / 4)
    }
    fn at(i: Instant) -> u64 {
        mcrt::now_ns().saturating_add(ns(i.saturating_duration_since(Instant::now())))
    }
    pub struct Sleep {
        s: mcrt::Sleep,
        deadline: Instant,
    }
    pub fn sleep(d: Duration) -> Sleep {
        let now = Instant::now();
        let deadline = now.checked_add(d).unwrap_or(now + Duration::from_secs(86400 * 365 * 30));
        Sleep { s: mcrt::sleep_ns(ns(d)), deadline }
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        Sleep { s: mcrt::Sleep::at_ns(at(i)), deadline: i }
    }
    impl Sleep {
        pub fn deadline(&self) -> Instant {
            self.deadline
        }
        pub fn is_elapsed(&self) -> bool {
            self.s.elapsed()
        }
        pub fn reset(self: Pin<&mut Self>, i: Instant) {
            let me = self.get_mut();
            me.deadline = i;
            me.s.reset_ns(at(i));
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            Pin::new(&mut self.s).poll(cx)
        }
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub struct Timeout<F> {
        f: Pin<Box<F>>,
        s: Sleep,
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        Timeout { f: Box::pin(f), s: sleep(d) }
    }
    pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> {
        Timeout { f: Box::pin(f), s: sleep_until(i) }
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            Pin::new(&mut self.s).poll(cx).map(|_| Err(error::Elapsed(())))
        }
    }
    pub struct Interval {
        s: Sleep,
        period: Duration,
        missed: MissedTickBehavior,
    }
    pub fn interval(period: Duration) -> Interval {
        interval_at(Instant::now(), period)
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        assert!(period > Duration::ZERO, "`period` must be non-zero.");
        Interval { s: sleep_until(start), period, missed: MissedTickBehavior::default() }
    }
    impl Interval {
        pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
            if Pin::new(&mut self.s).poll(cx).is_pending() {
                return Poll::Pending;
            }
            let due = self.s.deadline;
            let now = Instant::now();
            let next = if now > due + Duration::from_millis(5) {
                match self.missed {
                    MissedTickBehavior::Burst => due + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let n = (now - due).as_nanos() % self.period.as_nanos();
                        now + self.period - Duration::from_nanos(n as u64)
                    }
                }
            } else {
                due + self.period
            };
            Pin::new(&mut self.s).reset(next);
            Poll::Ready(due)
        }
        pub async fn tick(&mut self) -> Instant {
            std::future::poll_fn(|cx| self.poll_tick(cx)).await
        }
        pub fn reset(&mut self) {
            let t = Instant::now() + self.period;
            Pin::new(&mut self.s).reset(t)
        }
        pub fn period(&self) -> Duration {
            self.period
        }
        pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
            self.missed = b
        }
        pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
            self.missed
        }
    }
}

pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
}

pub mod runtime {
    #[derive(Clone)]
    pub struct Handle(());
    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: std::future::Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}
