//! Receiver of messages put in by the environment; receiving blocks the calling task as the real one blocks a thread.
use std::marker::PhantomData;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
impl std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("receiving on an empty and disconnected channel")
    }
}
impl std::error::Error for RecvError {}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl std::fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TryRecvError {}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        *self == RecvTimeoutError::Timeout
    }
    pub fn is_disconnected(&self) -> bool {
        *self == RecvTimeoutError::Disconnected
    }
}
impl std::fmt::Display for RecvTimeoutError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for RecvTimeoutError {}

pub struct Receiver<T> {
    chan: u64,
    gen: u64,
    _p: PhantomData<fn() -> T>,
}
pub fn controlled<T>(chan: u64) -> Receiver<T> {
    Receiver { chan, gen: mcrt::gen(), _p: PhantomData }
}
impl<T: 'static> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        mcrt::chan_recv(self.chan).map(|m| *m.downcast::<T>().expect("message type")).ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        match mcrt::chan_try(self.chan) {
            mcrt::Recv::Msg(m) => Ok(*m.downcast::<T>().expect("message type")),
            mcrt::Recv::Closed => Err(TryRecvError::Disconnected),
            mcrt::Recv::Empty => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: std::time::Duration) -> Result<T, RecvTimeoutError> {
        let at = mcrt::now_ns().saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX));
        match mcrt::chan_recv_until(self.chan, at) {
            mcrt::Recv::Msg(m) => Ok(*m.downcast::<T>().expect("message type")),
            mcrt::Recv::Closed => Err(RecvTimeoutError::Disconnected),
            mcrt::Recv::Empty => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn recv_deadline(&self, t: std::time::Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(t.saturating_duration_since(std::time::Instant::now()))
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.try_recv().ok())
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.recv().ok())
    }
    pub fn is_empty(&self) -> bool {
        mcrt::with(|rt| rt.chan_empty(self.chan))
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        mcrt::chan_drop(self.gen, self.chan)
    }
}
