//! Stand-in for reqwest: requests go to the harness function `vp_http`.
use std::fmt;
use std::io::{self, Read, Write};
use std::time::Duration;

extern "Rust" {
    /// flags: 1 accept invalid certs, 2 accept invalid hostnames.
    /// Returns (status, body, etag); status 0: the request failed,
    /// 1000+s: status s but reading the body fails.
    fn vp_http(url: &str, flags: u32, etag: Option<&str>) -> (u16, Vec<u8>, Option<Vec<u8>>);
}

#[derive(Debug)]
pub struct Error(&'static str);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_connect(&self) -> bool {
        true
    }
    pub fn is_status(&self) -> bool {
        false
    }
    pub fn status(&self) -> Option<StatusCode> {
        None
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
#[allow(missing_docs)]
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const MOVED_PERMANENTLY: StatusCode = StatusCode(301);
    pub const FOUND: StatusCode = StatusCode(302);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const GONE: StatusCode = StatusCode(410);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn as_str(&self) -> &str {
        "status"
    }
    pub fn is_success(&self) -> bool {
        self.0 >= 200 && self.0 < 300
    }
    pub fn is_redirection(&self) -> bool {
        self.0 >= 300 && self.0 < 400
    }
    pub fn is_client_error(&self) -> bool {
        self.0 >= 400 && self.0 < 500
    }
    pub fn is_server_error(&self) -> bool {
        self.0 >= 500 && self.0 < 600
    }
    pub fn canonical_reason(&self) -> Option<&'static str> {
        None
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("status")
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}

pub mod header {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct HeaderName(pub &'static str);
    impl AsRef<str> for HeaderName {
        fn as_ref(&self) -> &str {
            self.0
        }
    }
    pub trait Name {
        fn nm(&self) -> &str;
    }
    impl Name for HeaderName {
        fn nm(&self) -> &str {
            self.0
        }
    }
    impl Name for &HeaderName {
        fn nm(&self) -> &str {
            self.0
        }
    }
    impl Name for &str {
        fn nm(&self) -> &str {
            self
        }
    }
    pub const ACCEPT: HeaderName = HeaderName("accept");
    pub const CACHE_CONTROL: HeaderName = HeaderName("cache-control");
    pub const CONTENT_LENGTH: HeaderName = HeaderName("content-length");
    pub const CONTENT_TYPE: HeaderName = HeaderName("content-type");
    pub const ETAG: HeaderName = HeaderName("etag");
    pub const IF_MODIFIED_SINCE: HeaderName = HeaderName("if-modified-since");
    pub const IF_NONE_MATCH: HeaderName = HeaderName("if-none-match");
    pub const LAST_MODIFIED: HeaderName = HeaderName("last-modified");
    pub const USER_AGENT: HeaderName = HeaderName("user-agent");
    #[derive(Clone, Debug)]
    pub struct HeaderValue(pub Vec<u8>);
    #[derive(Debug)]
    pub struct ToStrError;
    impl std::fmt::Display for ToStrError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("header not ascii")
        }
    }
    impl std::error::Error for ToStrError {}
    impl HeaderValue {
        pub fn to_str(&self) -> Result<&str, ToStrError> {
            if self.0.iter().all(|b| (0x20..0x7f).contains(b)) {
                std::str::from_utf8(&self.0).map_err(|_| ToStrError)
            } else {
                Err(ToStrError)
            }
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn from_static(s: &'static str) -> Self {
            HeaderValue(s.as_bytes().to_vec())
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct HeaderMap(pub Vec<(&'static str, HeaderValue)>);
    impl HeaderMap {
        pub fn new() -> Self {
            HeaderMap(vec![])
        }
        pub fn get<N: Name>(&self, n: N) -> Option<&HeaderValue> {
            self.0.iter().find(|x| x.0.eq_ignore_ascii_case(n.nm())).map(|x| &x.1)
        }
        pub fn contains_key<N: Name>(&self, n: N) -> bool {
            self.get(n).is_some()
        }
        pub fn insert(&mut self, n: HeaderName, v: HeaderValue) -> Option<HeaderValue> {
            self.0.push((n.0, v));
            None
        }
    }
}

pub mod redirect {
    #[derive(Debug)]
    pub struct Policy;
    impl Policy {
        pub fn none() -> Self {
            Policy
        }
        pub fn limited(_: usize) -> Self {
            Policy
        }
    }
    impl Default for Policy {
        fn default() -> Self {
            Policy
        }
    }
}

pub mod blocking {
    use super::*;

    #[derive(Clone, Debug, Default)]
    pub struct Client {
        flags: u32,
    }
    #[derive(Default, Debug)]
    pub struct ClientBuilder {
        flags: u32,
    }
    #[derive(Debug)]
    pub struct RequestBuilder {
        flags: u32,
        url: String,
        etag: Option<String>,
    }
    #[derive(Debug)]
    pub struct Response {
        status: u16,
        broken: bool,
        body: bytes::Bytes,
        pos: usize,
        h: header::HeaderMap,
    }

    pub fn get<U: AsRef<str>>(u: U) -> Result<Response> {
        Client::new().get(u).send()
    }

    impl Client {
        pub fn builder() -> ClientBuilder {
            ClientBuilder::default()
        }
        pub fn new() -> Client {
            Client { flags: 0 }
        }
        pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder {
            RequestBuilder { flags: self.flags, url: u.as_ref().to_string(), etag: None }
        }
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn danger_accept_invalid_certs(mut self, b: bool) -> Self {
            self.flags = self.flags & !1 | b as u32;
            self
        }
        pub fn danger_accept_invalid_hostnames(mut self, b: bool) -> Self {
            self.flags = self.flags & !2 | (b as u32) << 1;
            self
        }
        pub fn timeout<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn connect_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn user_agent<V: AsRef<str>>(self, _: V) -> Self {
            self
        }
        pub fn redirect(self, _: redirect::Policy) -> Self {
            self
        }
        pub fn gzip(self, _: bool) -> Self {
            self
        }
        pub fn use_native_tls(self) -> Self {
            self
        }
        pub fn https_only(self, _: bool) -> Self {
            self
        }
        pub fn no_proxy(self) -> Self {
            self
        }
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client { flags: self.flags })
        }
    }
    impl RequestBuilder {
        pub fn header<N: header::Name, V: AsRef<str>>(mut self, n: N, v: V) -> Self {
            if n.nm().eq_ignore_ascii_case("if-none-match") {
                self.etag = Some(v.as_ref().to_string());
            }
            self
        }
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            let (s, body, etag) = unsafe { vp_http(&self.url, self.flags, self.etag.as_deref()) };
            if s == 0 {
                return Err(Error("request failed"));
            }
            let mut h = header::HeaderMap::new();
            if let Some(e) = etag {
                h.0.push(("etag", header::HeaderValue(e)));
            }
            let broken = s >= 1000;
            Ok(Response { status: if broken { s - 1000 } else { s }, broken, body: bytes::Bytes::from(body), pos: 0, h })
        }
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.status)
        }
        pub fn headers(&self) -> &header::HeaderMap {
            &self.h
        }
        pub fn content_length(&self) -> Option<u64> {
            Some(self.body.len() as u64)
        }
        pub fn bytes(self) -> Result<bytes::Bytes> {
            if self.broken {
                Err(Error("body error"))
            } else {
                Ok(self.body)
            }
        }
        pub fn text(self) -> Result<String> {
            if self.broken {
                Err(Error("body error"))
            } else {
                String::from_utf8(self.body.to_vec()).map_err(|_| Error("not utf-8"))
            }
        }
        pub fn copy_to<W: ?Sized + Write>(&mut self, w: &mut W) -> Result<u64> {
            if self.broken {
                let k = self.body.len() / 2;
                let _ = w.write_all(&self.body[..k]);
                return Err(Error("body error"));
            }
            w.write_all(&self.body).map_err(|_| Error("write failed"))?;
            Ok(self.body.len() as u64)
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status >= 400 {
                Err(Error("bad status"))
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.status >= 400 {
                Err(Error("bad status"))
            } else {
                Ok(self)
            }
        }
    }
    impl Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let lim = if self.broken { self.body.len() / 2 } else { self.body.len() };
            let k = buf.len().min(lim - self.pos);
            if k == 0 && self.broken && !buf.is_empty() {
                return Err(io::Error::new(io::ErrorKind::Other, "body error"));
            }
            buf[..k].copy_from_slice(&self.body[self.pos..self.pos + k]);
            self.pos += k;
            Ok(k)
        }
    }
}
