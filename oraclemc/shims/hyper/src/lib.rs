//! A server without a socket: requests are put in by the explorer.
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub use http::{header, Method, Request, Response, StatusCode, Uri, Version};
pub use http::HeaderMap;

#[derive(Debug, Default)]
pub struct Body(pub Vec<u8>);
impl Body {
    pub fn empty() -> Body {
        Body(vec![])
    }
}
impl From<String> for Body {
    fn from(s: String) -> Body {
        Body(s.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(s: &'static str) -> Body {
        Body(s.as_bytes().to_vec())
    }
}
impl From<Vec<u8>> for Body {
    fn from(s: Vec<u8>) -> Body {
        Body(s)
    }
}
impl From<&'static [u8]> for Body {
    fn from(s: &'static [u8]) -> Body {
        Body(s.to_vec())
    }
}

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

/// a connection
#[derive(Debug)]
pub struct Conn;
impl Conn {
    pub fn remote_addr(&self) -> SocketAddr {
        ([127, 0, 0, 1], 1).into()
    }
}

pub type Answer = Pin<Box<dyn Future<Output = Option<(u16, Vec<u8>)>> + Send>>;
pub type Handler = Arc<dyn Fn(Request<Body>) -> Answer + Send + Sync>;

pub mod service {
    use super::*;
    pub struct MakeServiceFn<F>(pub(crate) F);
    pub fn make_service_fn<F, Fut, S, E>(f: F) -> MakeServiceFn<F>
    where
        F: FnMut(&Conn) -> Fut,
        Fut: Future<Output = std::result::Result<S, E>>,
    {
        MakeServiceFn(f)
    }
    pub struct ServiceFn<F>(F);
    pub fn service_fn<F, Fut, E>(f: F) -> ServiceFn<F>
    where
        F: FnMut(Request<Body>) -> Fut,
        Fut: Future<Output = std::result::Result<Response<Body>, E>>,
    {
        ServiceFn(f)
    }
    pub trait HttpService: Send {
        fn call(&mut self, r: Request<Body>) -> Answer;
    }
    impl<F, Fut, E> HttpService for ServiceFn<F>
    where
        F: FnMut(Request<Body>) -> Fut + Send,
        Fut: Future<Output = std::result::Result<Response<Body>, E>> + Send + 'static,
        E: Send + 'static,
    {
        fn call(&mut self, r: Request<Body>) -> Answer {
            let f = (self.0)(r);
            Box::pin(async move { f.await.ok().map(|r| (r.status().as_u16(), r.into_body().0)) })
        }
    }
}
use service::{HttpService, MakeServiceFn};

pub struct Builder(SocketAddr);
pub struct Server {
    _addr: SocketAddr,
}
impl Server {
    pub fn bind(a: &SocketAddr) -> Builder {
        Builder(*a)
    }
    pub fn try_bind(a: &SocketAddr) -> Result<Builder> {
        Ok(Builder(*a))
    }
}
impl Builder {
    pub fn serve<F, Fut, S, E>(self, m: MakeServiceFn<F>) -> Serving
    where
        F: FnMut(&Conn) -> Fut + Send + 'static,
        Fut: Future<Output = std::result::Result<S, E>> + Send + 'static,
        S: HttpService + 'static,
        E: Send + 'static,
    {
        let make = std::sync::Mutex::new(m.0);
        let h: Handler = Arc::new(move |r| {
            let f = (make.lock().unwrap())(&Conn);
            Box::pin(async move {
                let mut s = f.await.ok()?;
                s.call(r).await
            })
        });
        Serving { h: Some(h) }
    }
}
/// the running server: accepts requests once it is polled
pub struct Serving {
    h: Option<Handler>,
}
impl Serving {
    pub fn with_graceful_shutdown<F: Future<Output = ()>>(self, _f: F) -> Serving {
        self
    }
}
impl Future for Serving {
    type Output = Result<()>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<()>> {
        if let Some(h) = self.h.take() {
            mcrt::with(|rt| rt.http = Some(Box::new(h)));
        }
        Poll::Pending
    }
}
