//! Stand-in for `http-cache-reqwest`: successful answers are kept in memory, by cache folder and URL.
//! The modes do what the crate documents; answers carry no caching headers, so that the modes that go by the HTTP
//! caching rules ask again every time.
use http::Extensions;
use reqwest::{Request, Response};
use reqwest_middleware::{Middleware, Next, Result};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{LazyLock, Mutex};

static KEPT: LazyLock<Mutex<HashMap<(PathBuf, String), (u16, String)>>> = LazyLock::new(Default::default);

#[derive(Clone, Debug)]
pub struct CACacheManager {
    pub path: PathBuf,
}
impl Default for CACacheManager {
    fn default() -> Self {
        Self { path: "./http-cacache".into() }
    }
}
pub trait CacheManager: 'static {
    fn folder(&self) -> PathBuf;
}
impl CacheManager for CACacheManager {
    fn folder(&self) -> PathBuf {
        self.path.clone()
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum CacheMode {
    #[default]
    Default,
    NoStore,
    Reload,
    NoCache,
    ForceCache,
    OnlyIfCached,
    IgnoreRules,
}
#[derive(Clone, Default)]
pub struct HttpCacheOptions(());
pub struct HttpCache<M> {
    pub mode: CacheMode,
    pub manager: M,
    pub options: HttpCacheOptions,
}
pub struct Cache<M>(pub HttpCache<M>);
impl<M: CacheManager> Middleware for Cache<M> {
    async fn handle(&self, req: Request, ext: &mut Extensions, next: Next<'_>) -> Result<Response> {
        let key = (self.0.manager.folder(), req.url().to_string());
        let (look, keep) = match self.0.mode {
            CacheMode::NoStore => (false, false),
            CacheMode::Default | CacheMode::Reload | CacheMode::NoCache => (false, true),
            CacheMode::ForceCache | CacheMode::OnlyIfCached | CacheMode::IgnoreRules => (true, true),
        };
        if look {
            if let Some((status, body)) = KEPT.lock().unwrap().get(&key).cloned() {
                return Ok(Response::new(status, body));
            }
            if self.0.mode == CacheMode::OnlyIfCached {
                return Ok(Response::new(504, String::new()));
            }
        }
        let resp = next.run(req, ext).await?;
        if keep && resp.status().as_u16() == 200 {
            KEPT.lock().unwrap().insert(key, (200, resp.content().to_string()));
        }
        Ok(resp)
    }
}
