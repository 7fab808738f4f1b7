//! C12: repository data kept for validation.
use crate::scen::*;
use crate::vp::{self, End};
use crate::world::*;
use crate::ca::{ok, ta, ta_cert, tal, TAURI};
use bytes::Bytes;
use krill_sync::validation::{Tal, Validator};
use std::collections::BTreeMap;

pub type Objs = BTreeMap<String, Vec<u8>>;
pub struct Kept {
    pub session: String,
    pub serial: u64,
    pub objs: Objs,
}
#[derive(serde::Deserialize)]
struct Saved {
    repositories: Repos,
}
#[derive(serde::Deserialize)]
struct Repos {
    data: BTreeMap<String, Data>,
}
#[derive(serde::Deserialize)]
struct Data {
    session_id: String,
    serial: u64,
    objects: BTreeMap<String, Object>,
}
#[derive(serde::Deserialize)]
struct Object {
    bytes: String,
}
/// What the validator keeps for the given repository, as saved in the state.
pub fn kept(state: &[u8], notif: &str) -> Option<Kept> {
    of(serde_json::from_reader(state).ok()?, notif)
}
#[derive(serde::Deserialize)]
struct State {
    validator: Saved,
}
/// The same, of a complete state file.
pub fn kept_in_state(state: &[u8], notif: &str) -> Option<Kept> {
    let s: State = serde_json::from_reader(state).ok()?;
    of(s.validator, notif)
}
fn of(mut s: Saved, notif: &str) -> Option<Kept> {
    let d = s.repositories.data.remove(notif)?;
    let mut objs = Objs::new();
    for (k, v) in d.objects {
        objs.insert(k, base64::decode(v.bytes).ok()?);
    }
    Some(Kept { session: d.session_id, serial: d.serial, objs })
}
pub fn is(k: &Kept, v: &Ver) -> bool {
    k.session == v.session && k.serial == v.serial && k.objs.len() == v.objs.len() && v.objs.iter().all(|o| k.objs.get(&o.uri) == Some(&o.data))
}
/// A validation run as a process of its own, of a trust anchor in the
/// repository; what it keeps is saved. Whether it had data of the repository.
fn step() -> (End, bool) {
    let f = format!("{}/validator.json", vp::root());
    let e = vp::call(|| {
        let mut v: Validator = match read(&f) {
            None => {
                let t = Tal::parse("ta".into(), Bytes::from(tal(TAURI, 0)), None).unwrap();
                Validator::new(vec![t], vec![])
            }
            Some(s) => serde_json::from_reader(s.as_slice()).unwrap(),
        };
        let r = v.validate(false).unwrap();
        let dir = ta().dir;
        let none = r.rrdp_repositories.values().any(|r| r.issues.iter().any(|i| i.uri.as_ref().map(|u| u.as_str() == dir) == Some(true)));
        std::fs::write(&f, serde_json::to_vec(&v).unwrap()).unwrap();
        none as i64
    });
    (e, e == End::Ret(0))
}
fn saved() -> Vec<u8> {
    read(&format!("{}/validator.json", vp::root())).unwrap()
}
fn o(k: &str, data: &[u8]) -> Obj {
    obj(&format!("rsync://h.example/repo/{k}"), data)
}
/// Turns the objects `from` into `to`.
pub fn diff(from: &[Obj], to: &[Obj]) -> Vec<El> {
    let mut v = vec![];
    for f in from {
        match to.iter().find(|t| t.uri == f.uri) {
            None => v.push(El::Wd(f.uri.clone(), hash(&f.data))),
            Some(t) if t.data != f.data => v.push(El::Upd(f.uri.clone(), hash(&f.data), t.data.clone())),
            _ => (),
        }
    }
    for t in to {
        if !from.iter().any(|f| f.uri == t.uri) {
            v.push(El::Pub(t.uri.clone(), t.data.clone()));
        }
    }
    v
}
fn sets(i: usize) -> Vec<Obj> {
    match i {
        0 => vec![o("a", b"one"), o("b", b"two"), o("c", b"three")],
        1 => vec![o("a", b"one more"), o("b", b"two"), o("d", b"four")],
        2 => vec![o("a", b"one more"), o("c", b"five"), o("d", b"four"), o("e", b"six")],
        _ => vec![o("b", b"seven"), o("e", b"six")],
    }
}
/// Version k of a session: serial `base + k`, `nd` correct deltas.
fn ver(session: &'static str, base: u64, k: u64, nd: u64, off: usize) -> Ver {
    let s = |k: u64| sets((k as usize + off) % 4);
    let mut v = version(session, base + k, 0, s(k));
    for j in 0..nd {
        let kk = k - j;
        let body = delta_xml(session, base + kk, &diff(&s(kk - 1), &s(kk)));
        v.deltas.push(Dl { serial: base + kk, uri: format!("{BASE}{session}/{}/delta.xml", num(base + kk)), hash: hash(&body) });
        v.delta_body.push(body);
    }
    v
}
/// An update by one to three versions, with one thing about the deltas wrong.
#[no_mangle]
pub extern "C" fn h_c12_update() {
    let base = vp::u64v("serial", LO, HI);
    vp::clock(T0);
    let v0 = ver(SA, base, 0, 0, 0);
    v0.serve();
    let cert = ta_cert(&ta(), ok(1));
    serve(TAURI, &cert);
    let (e, ok) = step();
    vp::check(e == End::Ret(0) && ok, "C12.no-data");
    let mut last = v0;
    let rounds = vp::pick("updates", 2) + 1;
    let mut at = 0;
    for r in 0..rounds {
        // the time is saved as text
        let gap = [0, 3599, 3600, 3601, 80000][vp::pick(&format!("time.{r}"), 5) as usize];
        vp::clock(vp::getclock() + gap);
        let odd = vp::pick(&format!("deltas.{r}"), 17);
        let by = 1 + vp::pick(&format!("versions.{r}"), 3 - r);
        let other = odd == 1;
        let to = at + by;
        let mut v = if other { ver(SB, base, to, to.min(3), 1) } else { ver(SA, base, to, to.min(3), 0) };
        let n = v.deltas.len();
        // which delta is odd; the newest is the first
        let w = if odd >= 3 { vp::pick(&format!("delta.{r}"), 3) as usize } else { 0 };
        vp::assume(w < n);
        let wd = |v: &mut Ver, body: Vec<u8>| {
            v.deltas[w].hash = hash(&body);
            v.delta_body[w] = body;
        };
        let (ser, from) = (base + to - w as u64, sets(((to as usize - w) + 3) % 4));
        let mut good = sets((to as usize - w) % 4);
        match odd {
            0 | 1 => (),
            // none listed
            2 => {
                v.deltas.clear();
                v.delta_body.clear();
            }
            // one not listed
            3 => {
                v.deltas.remove(w);
                v.delta_body.remove(w);
            }
            // only this and older ones
            4 => {
                v.deltas.drain(0..w);
                v.delta_body.drain(0..w);
            }
            // only this and newer ones
            5 => {
                v.deltas.truncate(w + 1);
                v.delta_body.truncate(w + 1);
            }
            // cannot be fetched, has another hash, breaks off
            6 => v.deltas[w].uri.push_str(".missing"),
            7 => v.delta_body[w] = b"<delta/>".to_vec(),
            8 => wd(&mut v, b"not a delta".to_vec()),
            // updates or withdraws what is not there, or is something else
            9 => wd(&mut v, delta_xml(SA, ser, &[El::Upd(o("none", b"").uri, hash(b"x"), b"y".to_vec())])),
            10 => wd(&mut v, delta_xml(SA, ser, &[El::Wd(o("none", b"").uri, hash(b"x"))])),
            11 => {
                let mut d = diff(&from, &good);
                d.insert(0, El::Upd(from[0].uri.clone(), hash(b"x"), b"y".to_vec()));
                wd(&mut v, delta_xml(SA, ser, &d));
            }
            12 => {
                let mut d = diff(&from, &good);
                d.push(El::Wd(good.pop().unwrap().uri, hash(b"x")));
                wd(&mut v, delta_xml(SA, ser, &d));
            }
            // for another session or serial
            13 => wd(&mut v, delta_xml(SB, ser, &[])),
            14 => wd(&mut v, delta_xml(SA, ser + 1, &[])),
            // listed with another serial
            15 => v.deltas[w].serial = vp::u64v(&format!("listed.{r}"), LO, HI + 100),
            // in another order
            _ => {
                v.deltas.swap(0, w);
                v.delta_body.swap(0, w);
            }
        }
        let snap = vp::pick(&format!("snapshot.{r}"), 3);
        unserve();
        v.serve();
        serve(TAURI, &cert);
        match snap {
            0 => (),
            1 => serve_status(&v.snap_uri, 404),
            _ => serve(&v.snap_uri, b"other content"),
        }
        let (e, ok) = step();
        vp::check(e == End::Ret(0) || e == End::Ret(1), "C12.panic");
        let k = kept(&saved(), NOTIF);
        match &k {
            None => {
                vp::check(snap != 0, "C12.dropped-although-available");
                vp::check(!ok, "C12.success-without-data");
                vp::cover("dropped");
                return;
            }
            // not looked at again within the hour
            Some(k) if gap <= 3600 && is(k, &last) => {
                vp::cover("kept");
                return;
            }
            Some(k) => {
                vp::check(is(k, &v), "C12.other-data");
                vp::check(ok, "C12.error-with-data");
                vp::cover(if snap == 0 { "updated" } else { "updated by deltas" });
            }
        }
        if other {
            return;
        }
        at = to;
        last = v;
    }
}
