//! C13, C11, C10: validation of a tree of CAs whose objects are made here.
use crate::scen::*;
use crate::vp::{self, End};
use crate::world::*;
use bytes::Bytes;
use chrono::{TimeZone, Utc};
use krill_sync::validation::{Tal, Validator};
use rpki::crypto::signer::{KeyError, SigningError};
use rpki::crypto::{DigestAlgorithm, PublicKey, PublicKeyFormat, RpkiSignatureAlgorithm, Signature, SignatureAlgorithm, Signer};
use rpki::repository::aspa::AspaBuilder;
use rpki::repository::cert::{ExtendedKeyUsage, KeyUsage, Overclaim, TbsCert};
use rpki::repository::crl::{CrlEntry, TbsCertList};
use rpki::repository::manifest::{FileAndHash, ManifestContent};
use rpki::repository::resources::{Asn, Prefix};
use rpki::repository::roa::RoaBuilder;
use rpki::repository::sigobj::SignedObjectBuilder;
use rpki::repository::x509::{Serial, Time, Validity};
use std::str::FromStr;

extern "C" {
    fn vp_sign(k: u64, p: *const u8, n: usize, m: *const u8, mn: usize, out: *mut u8);
}
static PUB: [&[u8]; 4] = [
    include_bytes!("../data/key0.pub"),
    include_bytes!("../data/key1.pub"),
    include_bytes!("../data/key2.pub"),
    include_bytes!("../data/key3.pub"),
];
static ROUTER: &[u8] = include_bytes!("../data/ec.pub");
/// The key of all EE certificates.
const EE: u64 = 3;

/// A key, and the one that signs for it.
#[derive(Clone, Copy)]
pub struct K(pub u64, pub u64);
pub struct S;
fn public(k: u64) -> PublicKey {
    PublicKey::decode(PUB[k as usize]).unwrap()
}
fn sig<A: SignatureAlgorithm>(k: u64, a: A, d: &[u8]) -> Signature<A> {
    let p = public(k);
    let b = p.bits();
    let mut o = vec![0; 256];
    unsafe { vp_sign(k, b.as_ptr(), b.len(), d.as_ptr(), d.len(), o.as_mut_ptr()) };
    Signature::new(a, Bytes::from(o))
}
impl Signer for S {
    type KeyId = K;
    type Error = String;
    fn create_key(&self, _: PublicKeyFormat) -> Result<K, String> {
        Ok(K(0, 0))
    }
    fn get_key_info(&self, k: &K) -> Result<PublicKey, KeyError<String>> {
        Ok(public(k.0))
    }
    fn destroy_key(&self, _: &K) -> Result<(), KeyError<String>> {
        Ok(())
    }
    fn sign<A: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, k: &K, a: A, d: &D) -> Result<Signature<A>, SigningError<String>> {
        Ok(sig(k.1, a, d.as_ref()))
    }
    fn sign_one_off<A: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, a: A, d: &D) -> Result<(Signature<A>, PublicKey), String> {
        Ok((sig(EE, a, d.as_ref()), public(EE)))
    }
    fn rand(&self, t: &mut [u8]) -> Result<(), String> {
        t.fill(7);
        Ok(())
    }
}
pub fn tm(s: u64) -> Time {
    Time::new(Utc.timestamp_opt(s as i64, 0).unwrap())
}
fn rs(s: &str) -> rpki::uri::Rsync {
    rpki::uri::Rsync::from_str(s).unwrap()
}
/// Validity unless something is to be different.
pub const FROM: u64 = T0 - 1000000;
pub const TO: u64 = T0 + 90000000;
#[derive(Clone, Copy)]
pub struct Val {
    pub serial: u64,
    pub from: u64,
    pub to: u64,
    /// resources the issuer does not have
    pub over: bool,
    /// signed with some other key
    pub forged: bool,
}
pub fn ok(serial: u64) -> Val {
    Val { serial, from: FROM, to: TO, over: false, forged: false }
}
impl Val {
    fn validity(&self) -> Validity {
        Validity::new(tm(self.from), tm(self.to))
    }
    fn key(&self, k: u64) -> K {
        K(k, if self.forged { 2 } else { k })
    }
}
/// A CA: number of its key and the directory of what it publishes.
#[derive(Clone)]
pub struct Ca {
    pub key: u64,
    pub dir: String,
    pub notify: String,
}
impl Ca {
    pub fn uri(&self, n: &str) -> String {
        format!("{}{n}", self.dir)
    }
}
pub fn ta_cert(ca: &Ca, v: Val) -> Vec<u8> {
    let p = public(ca.key);
    let mut c = TbsCert::new(Serial::from(v.serial), p.to_subject_name(), v.validity(), None, p, KeyUsage::Ca, Overclaim::Refuse);
    sia(&mut c, ca);
    c.build_v4_resource_blocks(|b| b.push(Prefix::from_str("10.0.0.0/8").unwrap()));
    c.build_as_resource_blocks(|b| b.push((Asn::from(64496), Asn::from(64511))));
    c.into_cert(&S, &v.key(ca.key)).unwrap().to_captured().into_bytes().to_vec()
}
fn sia(c: &mut TbsCert, ca: &Ca) {
    c.set_basic_ca(Some(true));
    c.set_ca_repository(Some(rs(&ca.dir)));
    c.set_rpki_manifest(Some(rs(&ca.uri("m.mft"))));
    c.set_rpki_notify(Some(rpki::uri::Https::from_str(&ca.notify).unwrap()));
}
fn issued(c: &mut TbsCert, by: &Ca) {
    c.set_authority_key_identifier(Some(public(by.key).key_identifier()));
    c.set_ca_issuer(Some(rs("rsync://h.example/repo/ca.cer")));
    c.set_crl_uri(Some(rs(&by.uri("l.crl"))));
}
pub fn ca_cert(by: &Ca, ca: &Ca, v: Val) -> Vec<u8> {
    let p = public(ca.key);
    let mut c = TbsCert::new(Serial::from(v.serial), public(by.key).to_subject_name(), v.validity(), None, p, KeyUsage::Ca, Overclaim::Refuse);
    sia(&mut c, ca);
    issued(&mut c, by);
    let pfx = if v.over { "11.1.0.0/16" } else { "10.1.0.0/16" };
    c.build_v4_resource_blocks(|b| b.push(Prefix::from_str(pfx).unwrap()));
    c.build_as_resource_blocks(|b| b.push((Asn::from(64500), Asn::from(64505))));
    c.into_cert(&S, &v.key(by.key)).unwrap().to_captured().into_bytes().to_vec()
}
pub fn router_cert(by: &Ca, v: Val) -> Vec<u8> {
    let p = PublicKey::decode(ROUTER).unwrap();
    let mut c = TbsCert::new(Serial::from(v.serial), public(by.key).to_subject_name(), v.validity(), None, p, KeyUsage::Ee, Overclaim::Refuse);
    issued(&mut c, by);
    c.set_extended_key_usage(Some(ExtendedKeyUsage::create_router()));
    let a = if v.over { 65000 } else { 64501 };
    c.build_as_resource_blocks(|b| b.push((Asn::from(a), Asn::from(a))));
    c.into_cert(&S, &v.key(by.key)).unwrap().to_captured().into_bytes().to_vec()
}
fn so(by: &Ca, name: &str, v: Val) -> SignedObjectBuilder {
    SignedObjectBuilder::new(Serial::from(v.serial), v.validity(), rs(&by.uri("l.crl")), rs("rsync://h.example/repo/ca.cer"), rs(&by.uri(name)))
}
pub fn roa(by: &Ca, name: &str, v: Val) -> Vec<u8> {
    let mut b = RoaBuilder::new(Asn::from(64501));
    let a = if v.over { [11, 1, 2, 0] } else { [10, 1, 2, 0] };
    b.push_addr(std::net::IpAddr::from(a), 24, Some(26));
    let r = b.finalize(so(by, name, v), &S, &v.key(by.key)).unwrap();
    r.to_captured().into_bytes().to_vec()
}
pub fn aspa(by: &Ca, name: &str, v: Val) -> Vec<u8> {
    let b = AspaBuilder::new(Asn::from(if v.over { 65000 } else { 64502 }), vec![Asn::from(64503), Asn::from(65001)]).unwrap();
    let r = b.finalize(so(by, name, v), &S, &v.key(by.key)).unwrap();
    r.to_captured().into_bytes().to_vec()
}
pub fn crl(by: &Ca, next: u64, revoked: &[u64], forged: bool) -> Vec<u8> {
    let l: Vec<CrlEntry> = revoked.iter().map(|s| CrlEntry::new(Serial::from(*s), tm(FROM))).collect();
    let p = public(by.key);
    let c = TbsCertList::new(RpkiSignatureAlgorithm::default(), p.to_subject_name(), tm(FROM), tm(next), l, p.key_identifier(), Serial::from(5u64));
    let c = c.into_crl(&S, &K(by.key, if forged { 2 } else { by.key })).unwrap();
    c.to_captured().into_bytes().to_vec()
}
pub fn mft(by: &Ca, list: &[(String, Vec<u8>)], v: Val) -> Vec<u8> {
    let l: Vec<FileAndHash<Vec<u8>, Vec<u8>>> =
        list.iter().map(|(n, d)| FileAndHash::new(n.as_bytes().to_vec(), hash(d).as_slice().to_vec())).collect();
    let c = ManifestContent::new(Serial::from(6u64), tm(FROM), tm(TO), DigestAlgorithm::default(), l.iter());
    let m = c.into_manifest(so(by, "m.mft", v), &S, &v.key(by.key)).unwrap();
    m.to_captured().into_bytes().to_vec()
}
pub fn tal(ca_uri: &str, key: u64) -> Vec<u8> {
    format!("{ca_uri}\n\n{}\n", base64::encode(PUB[key as usize])).into_bytes()
}
pub const TAURI: &str = "https://h.example/ta/ta.cer";
pub const OTHER: &str = "https://o.example/rrdp/notification.xml";

/// What a CA publishes: its manifest and CRL and what these are about.
#[derive(Clone)]
pub struct Point {
    pub ca: Ca,
    /// name, content, and whether it is there
    pub objs: Vec<(String, Vec<u8>, bool)>,
    pub revoked: Vec<u64>,
    /// what is wrong with manifest or CRL
    pub fault: u64,
    /// T0 plus this is when it expires (fault 4 and 11)
    pub until: u64,
}
pub const MFT_SERIAL: u64 = 9;
pub const POINT_FAULTS: u64 = 12;
impl Point {
    pub fn new(ca: &Ca) -> Point {
        Point { ca: ca.clone(), objs: vec![], revoked: vec![], fault: 0, until: 0 }
    }
    pub fn add(&mut self, n: &str, d: Vec<u8>) {
        self.objs.push((n.to_string(), d, true));
    }
    /// All that is to be published.
    pub fn files(&self) -> Vec<Obj> {
        let next = if self.fault == 11 { T0 + self.until } else { TO };
        let mut l = crl(&self.ca, next, &self.revoked, self.fault == 10);
        if self.fault == 9 {
            l = b"no CRL".to_vec();
        }
        let mut list: Vec<(String, Vec<u8>)> = self.objs.iter().map(|o| (o.0.clone(), o.1.clone())).collect();
        if self.fault != 6 {
            list.push(("l.crl".into(), l.clone()));
        }
        let mut v = ok(MFT_SERIAL);
        v.forged = self.fault == 3;
        if self.fault == 4 {
            v.to = T0 + self.until;
        }
        let mut m = mft(&self.ca, &list, v);
        if self.fault == 2 {
            m.truncate(100);
        }
        if self.fault == 8 {
            let n = l.len() - 1;
            l[n] ^= 1;
        }
        let mut out = vec![];
        if self.fault != 1 {
            out.push(obj(&self.ca.uri("m.mft"), &m));
        }
        if self.fault != 7 {
            out.push(obj(&self.ca.uri("l.crl"), &l));
        }
        for o in &self.objs {
            if o.2 {
                out.push(obj(&self.ca.uri(&o.0), &o.1));
            }
        }
        out
    }
}
pub fn ta() -> Ca {
    Ca { key: 0, dir: "rsync://h.example/repo/ta/".into(), notify: NOTIF.into() }
}
pub fn child() -> Ca {
    Ca { key: 1, dir: "rsync://h.example/repo/c/".into(), notify: NOTIF.into() }
}
/// The version of the repository at `notif` with these objects.
pub fn serve_at(notif: &str, serial: u64, objs: Vec<Obj>) {
    let mut v = version(SA, serial, 0, objs);
    if notif != NOTIF {
        v.snap_uri = v.snap_uri.replace("h.example", "o.example");
    }
    serve(notif, &v.notification());
    serve(&v.snap_uri, &v.snap);
}
const COUNTS: u32 = 0x40;
const ISSUE: u32 = 0x41;
/// What a validation run reported.
pub struct Report {
    /// per repository: issues, CA certificates, ROAs, ASPAs, router certificates
    counts: Vec<(String, [usize; 5])>,
    /// repository and URI
    issues: Vec<String>,
}
/// Validates as a process of its own.
fn validate() -> (End, Option<Report>) {
    vp::log_clear();
    let e = vp::call(|| {
        let t = Tal::parse("ta".into(), Bytes::from(tal(TAURI, 0)), None).unwrap();
        let r = match Validator::new(vec![t], vec![]).validate(false) {
            Ok(r) => r,
            Err(_) => return 1,
        };
        for (k, r) in &r.rrdp_repositories {
            let x = [r.issues.len(), r.nr_ca_certs, r.nr_roas, r.nr_aspas, r.nr_router_certs];
            vp::log_add(COUNTS, k.as_str(), x.iter().fold(0, |a, b| a * 256 + *b as u64));
            for i in &r.issues {
                let u = i.uri.as_ref().map(|u| u.as_str().to_string()).unwrap_or_default();
                vp::log_add(ISSUE, &format!("{} {u}", k.as_str()), 0);
            }
        }
        0
    });
    if e != End::Ret(0) {
        return (e, None);
    }
    let mut r = Report { counts: vec![], issues: vec![] };
    for i in 0..vp::log_len() {
        let l = vp::log(i);
        if l.op == COUNTS {
            let b = l.x.to_be_bytes();
            r.counts.push((l.a, [b[3] as usize, b[4] as usize, b[5] as usize, b[6] as usize, b[7] as usize]));
        } else if l.op == ISSUE {
            r.issues.push(l.a);
        }
    }
    (e, Some(r))
}
pub const OBJ_FAULTS: u64 = 9;
/// Content of the `i`-th kind of object of `by`.
fn make(by: &Ca, i: u64, v: Val, sub: &Ca) -> (&'static str, Vec<u8>) {
    match i {
        0 => ("a.roa", roa(by, "a.roa", v)),
        1 => ("b.asa", aspa(by, "b.asa", v)),
        2 => ("r.cer", router_cert(by, v)),
        3 => ("c.cer", ca_cert(by, sub, v)),
        4 => ("g.gbr", b"some ghostbuster".to_vec()),
        _ => ("t.txt", b"some text".to_vec()),
    }
}
struct Fault {
    kind: u64,
    until: u64,
    revoked: u64,
    byte: u64,
}
/// Object `i` of the point, with the fault; whether it is still valid at T0 + t.
fn put(p: &mut Point, i: u64, sub: &Ca, f: &Fault, t: u64) -> bool {
    let by = p.ca.clone();
    let serial = 20 + i;
    let mut v = ok(serial);
    match f.kind {
        4 => v.forged = true,
        5 => v.to = T0 + f.until,
        6 => v.from = T0 + f.until,
        7 => v.over = true,
        _ => (),
    }
    let signed = i < 4;
    let (n, mut d) = make(&by, i, v, sub);
    let mut there = true;
    let mut good = i < 5;
    match f.kind {
        1 => {
            there = false;
            good = false;
        }
        3 => {
            p.revoked.push(f.revoked);
            good = good && !(signed && f.revoked == serial);
        }
        4 | 7 => good = good && !signed,
        5 => good = good && !(signed && t > f.until),
        6 => good = good && !(signed && t < f.until),
        8 => {
            let l = d.len();
            d.truncate(l - 3);
            good = good && !signed;
        }
        _ => (),
    }
    p.objs.push((n.to_string(), d, there));
    good
}
/// After the manifest was made: another byte in the published file.
fn spoil(files: &mut [Obj], uri: &str, f: &Fault) {
    for o in files.iter_mut() {
        if o.uri == uri {
            let n = o.data.len() / 2;
            o.data[n] = f.byte as u8;
        }
    }
}
fn has_issue(r: &Report, repo: &str, uri: &str) -> bool {
    r.issues.contains(&format!("{repo} {uri}"))
}
fn counts(r: &Report, repo: &str) -> [usize; 5] {
    r.counts.iter().find(|c| c.0 == repo).map(|c| c.1).unwrap_or([0; 5])
}
/// A trust anchor and a child, one or two objects of the child with a fault.
#[no_mangle]
pub extern "C" fn h_c13_objects() {
    let (ta, mut ch) = (ta(), child());
    let other = vp::pick("child in other repository", 2) == 1;
    if other {
        ch.notify = OTHER.into();
    }
    let repo = if other { OTHER } else { NOTIF };
    let mut tp = Point::new(&ta);
    tp.add("c.cer", ca_cert(&ta, &ch, ok(20)));
    let mut cp = Point::new(&ch);
    let t = vp::u64v("now", 0, 5000);
    vp::clock(T0 + t);
    // a certified CA that has published nothing yet is another repository's
    // matter
    let sub = Ca { key: 2, dir: "rsync://h.example/repo/s/".into(), notify: "https://s.example/n.xml".into() };
    let victim = vp::pick("object", 6);
    let second = vp::pick("second", 7);
    vp::assume(second == 6 || second > victim);
    let mut bad = vec![];
    let mut exp = [0usize; 5];
    let mut spoilt = vec![];
    for i in 0..6 {
        let w = if i == victim {
            Some("")
        } else if i == second {
            Some(".2")
        } else {
            None
        };
        let f = match w {
            None => Fault { kind: 0, until: 0, revoked: 0, byte: 0 },
            Some(s) => {
                let kind = vp::pick(&format!("fault{s}"), OBJ_FAULTS);
                // times in certificates are given: rendering is not the point
                let until = [0, 1, 2500, 4999, 5000][if kind == 5 || kind == 6 { vp::pick(&format!("until{s}"), 5) as usize } else { 0 }];
                let revoked = if kind == 3 { vp::u64v(&format!("revoked{s}"), 1, 127) } else { 0 };
                let byte = if kind == 2 { vp::u8v(&format!("byte{s}"), 0, 255) as u64 } else { 0 };
                Fault { kind, until, revoked, byte }
            }
        };
        if f.kind == 3 {
            vp::assume(f.revoked != MFT_SERIAL);
            vp::assume(f.revoked < 20 || f.revoked > 25 || f.revoked == 20 + i);
        }
        // the unknown type only if it is the one
        if i == 5 && w.is_none() {
            continue;
        }
        let mut good = put(&mut cp, i, &sub, &f, t);
        let (n, d, _) = cp.objs.last().unwrap();
        let uri = ch.uri(n);
        if f.kind == 2 {
            good = good && d[d.len() / 2] == f.byte as u8;
            spoilt.push((uri.clone(), f));
        }
        if good {
            match i {
                0 => exp[2] += 1,
                1 => exp[3] += 1,
                2 => exp[4] += 1,
                3 => exp[1] += 1,
                _ => (),
            }
        } else {
            bad.push(uri);
        }
    }
    if !other {
        exp[1] += 1;
    }
    exp[0] = bad.len();
    let mut cf = cp.files();
    for (u, f) in &spoilt {
        spoil(&mut cf, u, f);
    }
    let mut tf = tp.files();
    if other {
        serve_at(OTHER, 3, cf);
    } else {
        tf.extend(cf);
    }
    serve_at(NOTIF, 7, tf);
    serve(TAURI, &ta_cert(&ta, ok(1)));
    let (e, r) = validate();
    vp::check(e == End::Ret(0), "C13.panic");
    let r = match r {
        Some(r) => r,
        None => {
            vp::check(false, "C13.no-report");
            return;
        }
    };
    for u in &bad {
        vp::check(has_issue(&r, repo, u), "C13.no-issue");
    }
    let c = counts(&r, repo);
    vp::check(c[0] == exp[0], "C13.other-issues");
    vp::check(c[1..] == exp[1..], "C13.other-counts");
    if other {
        vp::check(counts(&r, NOTIF) == [0, 1, 0, 0, 0], "C13.other-repository");
    }
    vp::cover(if bad.is_empty() { "all valid" } else { "issues" });
}
/// What is wrong with the manifest or CRL of the trust anchor or the child.
#[no_mangle]
pub extern "C" fn h_c13_points() {
    let (ta, mut ch) = (ta(), child());
    let other = vp::pick("child in other repository", 2) == 1;
    if other {
        ch.notify = OTHER.into();
    }
    let t = vp::u64v("now", 0, 5000);
    vp::clock(T0 + t);
    let which = vp::pick("fault of the child", 2);
    let fault = vp::pick("fault", POINT_FAULTS);
    let until = [0, 1, 2500, 4999, 5000][if fault == 4 || fault == 11 { vp::pick("until", 5) as usize } else { 0 }];
    let revoked = if fault == 5 { vp::u64v("revoked", 1, 127) } else { 0 };
    let mut tp = Point::new(&ta);
    tp.add("c.cer", ca_cert(&ta, &ch, ok(20)));
    tp.add("x.roa", roa(&ta, "x.roa", ok(21)));
    let mut cp = Point::new(&ch);
    cp.add("a.roa", roa(&ch, "a.roa", ok(20)));
    cp.add("g.gbr", b"some ghostbuster".to_vec());
    let p = if which == 1 { &mut cp } else { &mut tp };
    p.fault = fault;
    p.until = until;
    let bad = match fault {
        0 => false,
        4 | 11 => t > until,
        5 => {
            vp::assume(revoked < 20 || revoked > 21);
            p.revoked.push(revoked);
            revoked == MFT_SERIAL
        }
        _ => true,
    };
    let uri = [p.ca.uri("m.mft"), p.ca.uri("l.crl"), p.ca.dir.clone()];
    let (cf, mut tf) = (cp.files(), tp.files());
    if other {
        serve_at(OTHER, 3, cf);
    } else {
        tf.extend(cf);
    }
    serve_at(NOTIF, 7, tf);
    serve(TAURI, &ta_cert(&ta, ok(1)));
    let (e, r) = validate();
    vp::check(e == End::Ret(0), "C13.panic");
    let r = match r {
        Some(r) => r,
        None => {
            vp::check(false, "C13.no-report");
            return;
        }
    };
    let (a, b) = (counts(&r, NOTIF), counts(&r, OTHER));
    let sum = |a: [usize; 5], b: [usize; 5]| [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]];
    let of_ta = if bad && which == 0 { [1, 0, 0, 0, 0] } else { [0, 1, 1, 0, 0] };
    let of_ch = match (bad, which) {
        (true, 0) => [0; 5],
        (true, _) => [1, 0, 0, 0, 0],
        _ => [0, 0, 1, 0, 0],
    };
    if bad {
        let repo = if which == 1 && other { OTHER } else { NOTIF };
        vp::check(uri.iter().any(|u| has_issue(&r, repo, u)), "C13.no-issue");
    }
    if other {
        vp::check(a == of_ta && b == of_ch, "C13.other-result");
    } else {
        vp::check(a == sum(of_ta, of_ch), "C13.other-result");
    }
    vp::cover(if bad { "issue" } else { "all valid" });
}
/// Certificates for a CA they were issued under: validation ends, with an issue.
#[no_mangle]
pub extern "C" fn h_c13_loop() {
    let (ta, ch) = (ta(), child());
    vp::clock(T0);
    let how = vp::pick("loop", 4);
    let mut tp = Point::new(&ta);
    tp.add("c.cer", ca_cert(&ta, &ch, ok(20)));
    let mut cp = Point::new(&ch);
    cp.add("a.roa", roa(&ch, "a.roa", ok(20)));
    let mut gp = None;
    let mut uri = ch.uri("l.cer");
    match how {
        // to itself, to the trust anchor
        0 => cp.add("l.cer", ca_cert(&ch, &ch, ok(21))),
        1 => cp.add("l.cer", ca_cert(&ch, &ta, ok(21))),
        _ => {
            let gc = Ca { key: 2, dir: "rsync://h.example/repo/g/".into(), notify: NOTIF.into() };
            cp.add("g.cer", ca_cert(&ch, &gc, ok(21)));
            let mut p = Point::new(&gc);
            if how == 2 {
                p.add("l.cer", ca_cert(&gc, &ch, ok(20)));
                uri = gc.uri("l.cer");
            } else {
                // no loop
                p.add("a.roa", roa(&gc, "a.roa", ok(20)));
                uri.clear();
            }
            gp = Some(p);
        }
    }
    let mut f = tp.files();
    f.extend(cp.files());
    if let Some(p) = gp {
        f.extend(p.files());
    }
    serve_at(NOTIF, 7, f);
    serve(TAURI, &ta_cert(&ta, ok(1)));
    let (e, r) = validate();
    vp::check(e == End::Ret(0), "C13.panic");
    if let Some(r) = r {
        if how < 3 {
            vp::check(has_issue(&r, NOTIF, &uri), "C13.no-issue");
        }
        vp::check(counts(&r, NOTIF) == [[1, 1, 1, 0, 0], [1, 1, 1, 0, 0], [1, 2, 1, 0, 0], [0, 2, 2, 0, 0]][how as usize], "C13.other-result");
        vp::cover(if how < 3 { "loop" } else { "no loop" });
    } else {
        vp::check(false, "C13.no-report");
    }
}
