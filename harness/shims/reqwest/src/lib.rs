//! In-process stand-in for `reqwest` (no network here): requests go to a handler installed by the
//! harness with `set_handler`; without one every request fails like an unreachable host.
use std::{fmt, sync::{Arc, RwLock}, time::Duration};
pub use http::{HeaderMap, Method, StatusCode, Version};
pub use url::Url;
pub mod header {
    pub use http::header::*;
}
pub struct Error(String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reqwest::Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct Request {
    pub method: Method,
    pub url: Url,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
    pub timeout: Option<Duration>,
    pub proxy: Option<String>,
    pub redirects: usize,
}
#[derive(Clone, Debug)]
pub struct Response {
    pub status: StatusCode,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> {
        Ok(self.body.into())
    }
    pub async fn text(self) -> Result<String, Error> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
}
type Handler = Arc<dyn Fn(&Request) -> Result<Response, String> + Send + Sync>;
static HANDLER: RwLock<Option<Handler>> = RwLock::new(None);
pub fn set_handler(h: impl Fn(&Request) -> Result<Response, String> + Send + Sync + 'static) {
    *HANDLER.write().unwrap() = Some(Arc::new(h));
}
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body {
    fn from(x: Vec<u8>) -> Self {
        Body(x)
    }
}
pub mod redirect {
    pub struct Policy(pub usize);
    impl Policy {
        pub fn limited(n: usize) -> Self {
            Policy(n)
        }
        pub fn none() -> Self {
            Policy(0)
        }
    }
}
pub struct Proxy(String);
impl Proxy {
    pub fn http(u: Url) -> Result<Self, Error> {
        Ok(Proxy(u.to_string()))
    }
    pub fn all(u: Url) -> Result<Self, Error> {
        Ok(Proxy(u.to_string()))
    }
}
#[derive(Clone, Debug, Default)]
pub struct Client {
    proxy: Option<String>,
    redirects: usize,
}
#[derive(Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn proxy(mut self, p: Proxy) -> Self {
        self.0.proxy = Some(p.0);
        self
    }
    pub fn redirect(mut self, p: redirect::Policy) -> Self {
        self.0.redirects = p.0;
        self
    }
    pub fn build(self) -> Result<Client, Error> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    fn req(&self, method: Method, url: Url) -> RequestBuilder {
        RequestBuilder(Request { method, url, headers: HeaderMap::new(), body: vec![], timeout: None, proxy: self.proxy.clone(), redirects: self.redirects })
    }
    pub fn get(&self, url: Url) -> RequestBuilder {
        self.req(Method::GET, url)
    }
    pub fn post(&self, url: Url) -> RequestBuilder {
        self.req(Method::POST, url)
    }
    pub fn head(&self, url: Url) -> RequestBuilder {
        self.req(Method::HEAD, url)
    }
    pub async fn execute(&self, r: Request) -> Result<Response, Error> {
        let h = HANDLER.read().unwrap().clone();
        match h {
            Some(h) => h(&r).map_err(Error),
            None => Err(Error("error sending request".into())),
        }
    }
}
pub struct RequestBuilder(Request);
impl RequestBuilder {
    pub fn body(mut self, b: impl Into<Body>) -> Self {
        self.0.body = b.into().0;
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self {
        self.0.headers.extend(h);
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.0.timeout = Some(t);
        self
    }
    pub fn build(self) -> Result<Request, Error> {
        Ok(self.0)
    }
}
