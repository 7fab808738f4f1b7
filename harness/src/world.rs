//! The world around krill-sync: the RRDP source, the configured directories
//! and the oracles over what is published.
use crate::vp;
use rpki::rrdp::{Hash, NotificationFile};
use std::fs;
use std::path::Path;

pub const SA: &str = "9df4b597-af9e-4dca-bdda-719cce2c4e28";
pub const SB: &str = "a1c4b597-af9e-4dca-bdda-719cce2c4e29";
pub const SC: &str = "b2c4b597-af9e-4dca-bdda-719cce2c4e2a";
pub const BASE: &str = "https://h.example/rrdp/";
pub const NOTIF: &str = "https://h.example/rrdp/notification.xml";
pub const T0: u64 = 1_700_000_000;

#[derive(Clone)]
pub struct Res {
    pub url: String,
    pub status: u16,
    pub body: Vec<u8>,
    pub etag: Option<Vec<u8>>,
}
pub struct World {
    pub res: Vec<Res>,
    pub gets: u32,
    /// fail the n-th GET (0-based) with this status
    pub bad_get: u64,
    /// what the failing GET returns, see `vp_http`
    pub bad_kind: u64,
    /// number of GETs, and whether something odd was asked for
    pub flags: u32,
}
#[allow(non_upper_case_globals)]
#[no_mangle]
pub static mut VP_KEEP_W: World = World { res: Vec::new(), gets: 0, bad_get: u64::MAX, bad_kind: 0, flags: 0 };

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut VP_KEEP_W }
}

#[no_mangle]
fn vp_http(url: &str, flags: u32, etag: Option<&str>) -> (u16, Vec<u8>, Option<Vec<u8>>) {
    let w = w();
    vp::log_add(vp::GET, url, flags as u64 | if etag.is_some() { 0x100 } else { 0 });
    w.flags |= flags;
    let k = w.gets;
    w.gets += 1;
    if k as u64 == w.bad_get {
        match w.bad_kind {
            0 => return (0, Vec::new(), None),
            1 => return (304, Vec::new(), None),
            2 => return (404, b"not found".to_vec(), None),
            3 => return (500, Vec::new(), None),
            4 => return (1200, Vec::new(), None),
            5 => return (200, Vec::new(), None),
            6 => return (200, b"<html>captive portal</html>".to_vec(), None),
            7 => return (206, lookup(url).1, None),
            9 => {
                // one byte is different
                let (s, mut b, e) = lookup(url);
                let n = b.len() / 2;
                if n > 0 && url != NOTIF {
                    b[n] ^= 1;
                } else {
                    b.clear();
                }
                return (s, b, e);
            }
            _ => {
                let (s, mut b, e) = lookup(url);
                b.truncate(b.len() / 2);
                return (s, b, e);
            }
        }
    }
    lookup(url)
}
fn lookup(url: &str) -> (u16, Vec<u8>, Option<Vec<u8>>) {
    let w = w();
    for r in w.res.iter().rev() {
        if r.url == url {
            return (r.status, r.body.clone(), r.etag.clone());
        }
    }
    (404, Vec::new(), None)
}
pub fn serve(url: &str, body: &[u8]) {
    w().res.push(Res { url: url.to_string(), status: 200, body: body.to_vec(), etag: None });
}
pub fn serve_status(url: &str, status: u16) {
    w().res.push(Res { url: url.to_string(), status, body: Vec::new(), etag: None });
}
pub fn unserve() {
    w().res.clear();
}

// ------------------------------------------------------------ RRDP documents
#[derive(Clone)]
pub struct Obj {
    pub uri: String,
    pub data: Vec<u8>,
}
pub fn obj(uri: &str, data: &[u8]) -> Obj {
    Obj { uri: uri.to_string(), data: data.to_vec() }
}
pub fn snapshot_xml(session: &str, serial: u64, objs: &[Obj]) -> Vec<u8> {
    let mut s = String::new();
    s.push_str("<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"");
    s.push_str(session);
    s.push_str("\" serial=\"");
    s.push_str(&num(serial));
    s.push_str("\">\n");
    for o in objs {
        s.push_str("<publish uri=\"");
        s.push_str(&o.uri);
        s.push_str("\">");
        s.push_str(&base64::encode(&o.data));
        s.push_str("</publish>\n");
    }
    s.push_str("</snapshot>");
    s.into_bytes()
}
pub enum El {
    Pub(String, Vec<u8>),
    Upd(String, Hash, Vec<u8>),
    Wd(String, Hash),
}
pub fn delta_xml(session: &str, serial: u64, els: &[El]) -> Vec<u8> {
    let mut s = String::new();
    s.push_str("<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"");
    s.push_str(session);
    s.push_str("\" serial=\"");
    s.push_str(&num(serial));
    s.push_str("\">\n");
    for e in els {
        match e {
            El::Pub(u, d) => {
                s.push_str("<publish uri=\"");
                s.push_str(u);
                s.push_str("\">");
                s.push_str(&base64::encode(d));
                s.push_str("</publish>\n");
            }
            El::Upd(u, h, d) => {
                s.push_str("<publish uri=\"");
                s.push_str(u);
                s.push_str("\" hash=\"");
                s.push_str(&hex(h));
                s.push_str("\">");
                s.push_str(&base64::encode(d));
                s.push_str("</publish>\n");
            }
            El::Wd(u, h) => {
                s.push_str("<withdraw uri=\"");
                s.push_str(u);
                s.push_str("\" hash=\"");
                s.push_str(&hex(h));
                s.push_str("\"/>\n");
            }
        }
    }
    s.push_str("</delta>");
    s.into_bytes()
}
/// Serial numbers as text (the engine renders symbolic ones injectively).
pub fn num(n: u64) -> String {
    format!("{n}")
}
pub fn hex(h: &Hash) -> String {
    let mut s = String::with_capacity(64);
    for b in h.as_slice() {
        s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    s
}
pub fn hash(b: &[u8]) -> Hash {
    Hash::from_data(b)
}
#[derive(Clone)]
pub struct Dl {
    pub serial: u64,
    pub uri: String,
    pub hash: Hash,
}
pub fn notification_xml(session: &str, serial: u64, uri: &str, h: &Hash, deltas: &[Dl]) -> Vec<u8> {
    let mut s = String::new();
    s.push_str("<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"");
    s.push_str(session);
    s.push_str("\" serial=\"");
    s.push_str(&num(serial));
    s.push_str("\">\n<snapshot uri=\"");
    s.push_str(uri);
    s.push_str("\" hash=\"");
    s.push_str(&hex(h));
    s.push_str("\"/>\n");
    for d in deltas {
        s.push_str("<delta serial=\"");
        s.push_str(&num(d.serial));
        s.push_str("\" uri=\"");
        s.push_str(&d.uri);
        s.push_str("\" hash=\"");
        s.push_str(&hex(&d.hash));
        s.push_str("\"/>\n");
    }
    s.push_str("</notification>");
    s.into_bytes()
}

/// One version of the source repository.
#[derive(Clone)]
pub struct Ver {
    pub session: &'static str,
    pub serial: u64,
    pub snap_uri: String,
    pub snap: Vec<u8>,
    pub objs: Vec<Obj>,
    pub deltas: Vec<Dl>,
    pub delta_body: Vec<Vec<u8>>,
}
/// A version with `nd` deltas (serial, serial-1, ..), objects as given.
pub fn version(session: &'static str, serial: u64, nd: u64, objs: Vec<Obj>) -> Ver {
    let p = format!("{BASE}{session}/{}/", num(serial));
    let snap = snapshot_xml(session, serial, &objs);
    let mut v = Ver { session, serial, snap_uri: format!("{p}snapshot.xml"), snap, objs, deltas: vec![], delta_body: vec![] };
    for k in 0..nd {
        let s = serial - k;
        let body = delta_xml(session, s, &[El::Pub(String::from("rsync://h.example/repo/x"), b"delta".to_vec())]);
        v.deltas.push(Dl { serial: s, uri: format!("{BASE}{session}/{}/delta.xml", num(s)), hash: hash(&body) });
        v.delta_body.push(body);
    }
    v
}
impl Ver {
    pub fn notification(&self) -> Vec<u8> {
        notification_xml(self.session, self.serial, &self.snap_uri, &hash(&self.snap), &self.deltas)
    }
    pub fn serve(&self) {
        serve(NOTIF, &self.notification());
        serve(&self.snap_uri, &self.snap);
        for (d, b) in self.deltas.iter().zip(&self.delta_body) {
            serve(&d.uri, b);
        }
    }
}

// ------------------------------------------------------------ running krill-sync
#[derive(Clone)]
pub struct Cfg {
    pub state: Option<String>,
    pub rrdp: Option<String>,
    pub rsync: Option<String>,
    pub cleanup: Option<String>,
    pub max_deltas: Option<String>,
    pub uri: String,
    pub extra: Vec<String>,
    pub verb: &'static str,
}
impl Cfg {
    pub fn std() -> Cfg {
        let r = vp::root();
        Cfg {
            state: Some(format!("{r}/state")),
            rrdp: Some(format!("{r}/rrdp")),
            rsync: Some(format!("{r}/rsync")),
            cleanup: None,
            max_deltas: None,
            uri: NOTIF.to_string(),
            extra: vec![],
            verb: "--quiet",
        }
    }
    pub fn arg(mut self, s: &str) -> Cfg {
        self.extra.push(s.to_string());
        self
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![String::from("krill-sync")];
        if !self.verb.is_empty() {
            v.push(self.verb.to_string());
        }
        let mut o = |n: &str, x: &Option<String>| {
            if let Some(x) = x {
                v.push(n.to_string());
                v.push(x.clone());
            }
        };
        o("--state-dir", &self.state);
        o("--rrdp-dir", &self.rrdp);
        o("--rsync-dir", &self.rsync);
        o("--cleanup-after", &self.cleanup);
        o("--rrdp-max-deltas", &self.max_deltas);
        for e in &self.extra {
            v.push(e.clone());
        }
        v.push(self.uri.clone());
        v
    }
}
/// Run krill-sync's `main` as a fresh process with the given configuration.
pub fn run(c: &Cfg) -> vp::End {
    w().gets = 0;
    vp::set_args(&c.args());
    vp::call(|| crate::m::vp_main_entry() as i64)
}
/// `digits` symbolic decimal digits as an argument string, plus their value.
pub fn sym_digits(name: &str, digits: usize) -> (String, u64) {
    let mut s = vec![];
    let mut v = 0u64;
    for i in 0..digits {
        let d = vp::u8v(&format!("{name}.{i}"), 0, 9);
        s.push(b'0' + d);
        v = v * 10 + d as u64;
    }
    (unsafe { String::from_utf8_unchecked(s) }, v)
}

// ------------------------------------------------------------ oracles
pub struct Pub {
    pub n: NotificationFile,
    pub raw: Vec<u8>,
}
pub fn read(p: &str) -> Option<Vec<u8>> {
    fs::read(p).ok()
}
pub fn exists(p: &str) -> bool {
    fs::symlink_metadata(p).is_ok()
}
#[allow(non_upper_case_globals)]
#[no_mangle]
pub static mut VP_KEEP_M: Vec<(Vec<u8>, NotificationFile)> = Vec::new();
/// Parses a notification; results for the same bytes are kept.
#[allow(static_mut_refs)]
pub fn parse(raw: &[u8]) -> Option<NotificationFile> {
    let m = unsafe { &mut VP_KEEP_M };
    for (r, n) in m.iter().rev() {
        if r.as_slice() == raw {
            return Some(n.clone());
        }
    }
    let n = NotificationFile::parse(raw).ok()?;
    m.push((raw.to_vec(), n.clone()));
    Some(n)
}
/// Parses the likely form of this version's published notification up front,
/// so that paths that find it need not do so each.
pub fn expect(v: &Ver) {
    use std::str::FromStr;
    let u = |s: &str| rpki::uri::Https::from_str(s).unwrap();
    let n = NotificationFile::new(
        uuid::Uuid::from_str(v.session).unwrap(),
        v.serial,
        rpki::rrdp::SnapshotInfo::new(u(&v.snap_uri), hash(&v.snap)),
        v.deltas.iter().map(|d| rpki::rrdp::DeltaInfo::new(d.serial, u(&d.uri), d.hash)).collect(),
    );
    let mut raw = vec![];
    if n.write_xml(&mut raw).is_ok() {
        parse(&raw);
    }
}
/// C01: what is published is complete.
pub fn published(rrdp: &str, base: &str, name: &str, id: &str) -> Option<Pub> {
    let raw = read(&format!("{rrdp}/{name}"))?;
    let n = match parse(&raw) {
        Some(n) => n,
        None => {
            vp::check(false, &format!("{id}.notification-wellformed"));
            return None;
        }
    };
    let one = |uri: &str, h: Hash, what: &str| match uri.strip_prefix(base) {
        None => vp::check(false, &format!("{id}.{what}-uri-outside-base")),
        Some(rel) => match read(&format!("{rrdp}/{rel}")) {
            None => vp::check(false, &format!("{id}.{what}-missing")),
            Some(b) => vp::check(hash(&b) == h, &format!("{id}.{what}-content")),
        },
    };
    one(n.snapshot().uri().as_str(), n.snapshot().hash(), "snapshot");
    for d in n.deltas() {
        one(d.uri().as_str(), d.hash(), "delta");
    }
    Some(Pub { n, raw })
}
/// All files below `d`: (relative path, content), sorted as found.
pub fn tree(d: &str) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    walk(Path::new(d), "", &mut out);
    out
}
fn walk(d: &Path, rel: &str, out: &mut Vec<(String, Vec<u8>)>) {
    if let Ok(rd) = fs::read_dir(d) {
        for e in rd.flatten() {
            let name = e.file_name();
            let name = unsafe { std::str::from_utf8_unchecked(std::os::unix::ffi::OsStrExt::as_bytes(name.as_os_str())) };
            let r = if rel.is_empty() { name.to_string() } else { format!("{rel}/{name}") };
            let p = d.join(name);
            match fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => walk(&p, &r, out),
                Ok(m) if m.is_symlink() => {
                    let t = fs::read_link(&p).map(|t| std::os::unix::ffi::OsStrExt::as_bytes(t.as_os_str()).to_vec()).unwrap_or_default();
                    out.push((format!("{r}@"), t))
                }
                _ => out.push((r, fs::read(&p).unwrap_or_default())),
            }
        }
    }
}
pub fn same_tree(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.0 == y.0 && x.1 == y.1))
}
/// Path of an object below the rsync tree.
pub fn rsync_rel(uri: &str, host: bool) -> String {
    let s = uri.strip_prefix("rsync://").unwrap();
    if host {
        s.to_string()
    } else {
        let (_, r) = s.split_once('/').unwrap();
        let (_, r) = r.split_once('/').unwrap();
        r.to_string()
    }
}
pub fn objs_tree(o: &[Obj], host: bool) -> Vec<(String, Vec<u8>)> {
    o.iter().map(|o| (rsync_rel(&o.uri, host), o.data.clone())).collect()
}
