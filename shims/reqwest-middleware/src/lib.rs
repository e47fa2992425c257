//! Stand-in for `reqwest-middleware`.
use http::Extensions;
use reqwest::{Client, Request, Response, Url};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

#[derive(Debug)]
pub enum Error {
    Middleware(anyhow::Error),
    Reqwest(reqwest::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Middleware(e) => e.fmt(f),
            Error::Reqwest(e) => e.fmt(f),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[allow(async_fn_in_trait)]
pub trait Middleware: 'static {
    async fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> Result<Response>;
}
type BoxFut<'a> = Pin<Box<dyn Future<Output = Result<Response>> + 'a>>;
trait Erased {
    fn handle<'a>(&'a self, req: Request, ext: &'a mut Extensions, next: Next<'a>) -> BoxFut<'a>;
}
impl<M: Middleware> Erased for M {
    fn handle<'a>(&'a self, req: Request, ext: &'a mut Extensions, next: Next<'a>) -> BoxFut<'a> {
        Box::pin(Middleware::handle(self, req, ext, next))
    }
}
#[derive(Clone)]
pub struct Next<'a> {
    rest: &'a [Arc<dyn Erased>],
}
impl<'a> Next<'a> {
    pub fn run(self, req: Request, ext: &'a mut Extensions) -> BoxFut<'a> {
        match self.rest.split_first() {
            Some((m, rest)) => m.handle(req, ext, Next { rest }),
            None => Box::pin(async move { reqwest::execute(req).await.map_err(Error::Reqwest) }),
        }
    }
}
pub struct ClientBuilder {
    stack: Vec<Arc<dyn Erased>>,
}
impl ClientBuilder {
    pub fn new(_client: Client) -> Self {
        Self { stack: vec![] }
    }
    pub fn with<M: Middleware>(mut self, m: M) -> Self {
        self.stack.push(Arc::new(m));
        self
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware { stack: self.stack.into() }
    }
}
#[derive(Clone)]
pub struct ClientWithMiddleware {
    stack: Arc<[Arc<dyn Erased>]>,
}
impl ClientWithMiddleware {
    pub fn get(&self, url: Url) -> RequestBuilder {
        RequestBuilder { stack: self.stack.clone(), url }
    }
}
pub struct RequestBuilder {
    stack: Arc<[Arc<dyn Erased>]>,
    url: Url,
}
impl RequestBuilder {
    pub async fn send(self) -> Result<Response> {
        let mut ext = Extensions::new();
        Next { rest: &self.stack }.run(Request { url: self.url }, &mut ext).await
    }
}
