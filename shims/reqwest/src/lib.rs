//! Stand-in for `reqwest`: requests are answered by a handler the harness installs for the current thread.
pub use http::StatusCode;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
pub use url::Url;

/// How the harness answers a request.
#[derive(Clone, Debug)]
pub enum Reply {
    Body(u16, String),
    /// the connection breaks
    Broken,
}
type Handler = Rc<dyn Fn(&Url) -> (usize, Reply)>;
thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
}
/// Installs what answers the requests of this thread: after how many polls, and with what.
pub fn set_handler(h: Option<Handler>) {
    HANDLER.with(|c| *c.borrow_mut() = h);
}

type SharedHandler = std::sync::Arc<dyn Fn(&Url) -> (usize, Reply) + Send + Sync>;
static SHARED: std::sync::Mutex<Option<SharedHandler>> = std::sync::Mutex::new(None);
/// Installs what answers the requests of threads without a handler of their own.
pub fn set_shared_handler(h: Option<SharedHandler>) {
    *SHARED.lock().unwrap() = h;
}

#[derive(Debug)]
pub struct Error {
    status: Option<StatusCode>,
    what: String,
}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
    pub fn is_decode(&self) -> bool {
        self.what.starts_with("decode")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default)]
pub struct Client(());
impl Client {
    pub fn new() -> Self {
        Self(())
    }
}
#[derive(Debug)]
pub struct Request {
    pub url: Url,
}
impl Request {
    pub fn url(&self) -> &Url {
        &self.url
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: String,
}
impl Response {
    pub fn new(status: u16, body: String) -> Self {
        Self { status: StatusCode::from_u16(status).unwrap(), body }
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    #[doc(hidden)]
    pub fn content(&self) -> &str {
        &self.body
    }
    pub fn error_for_status(self) -> Result<Self, Error> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { status: Some(self.status), what: format!("HTTP status {}", self.status) });
        }
        Ok(self)
    }
    pub async fn text(self) -> Result<String, Error> {
        Ok(self.body)
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
        serde_json::from_str(&self.body).map_err(|e| Error { status: None, what: format!("decode: {e}") })
    }
}
/// Becomes ready at its `left`+1st poll.
struct Later(usize);
impl std::future::Future for Later {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
pub async fn execute(req: Request) -> Result<Response, Error> {
    let own = HANDLER.with(|h| h.borrow().clone());
    let (polls, reply) = match own {
        Some(h) => h(&req.url),
        None => {
            let shared = SHARED.lock().unwrap().clone().expect("no server installed");
            shared(&req.url)
        }
    };
    Later(polls).await;
    match reply {
        Reply::Body(status, body) => Ok(Response::new(status, body)),
        Reply::Broken => Err(Error { status: None, what: "connection broken".into() }),
    }
}
