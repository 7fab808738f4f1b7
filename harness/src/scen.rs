//! Histories of runs against a changing source, shared by several properties.
use crate::vp::{self, End};
use crate::world::*;
use std::fs;

pub struct H {
    pub c: Cfg,
    pub known: Vec<Ver>,
    pub idx: usize,
}
pub const LO: u64 = 16;
pub const HI: u64 = 1 << 62;

pub fn objs(i: usize) -> Vec<Obj> {
    let u = |p: &str| format!("rsync://h.example/repo/{p}");
    match i % 4 {
        0 => vec![obj(&u("a/x.txt"), b"hello"), obj(&u("b.txt"), b"same")],
        1 => vec![obj(&u("a/x.txt"), b"changed"), obj(&u("c/d/y.txt"), b"new"), obj(&u("b.txt"), b"same")],
        2 => vec![],
        _ => vec![obj(&u("a"), b"a file now"), obj(&u("b.txt"), b"same")],
    }
}
impl H {
    pub fn new() -> H {
        H { c: Cfg::std(), known: vec![], idx: 0 }
    }
    pub fn r(&self, p: &str) -> String {
        format!("{}/{p}", vp::root())
    }
    /// A version is a function of session and serial.
    pub fn ver(&mut self, sess: &'static str, serial: u64, nd: u64) -> Ver {
        for k in &self.known {
            if k.session == sess && k.serial == serial {
                return k.clone();
            }
        }
        let v = version(sess, serial, nd, objs(self.idx));
        self.idx += 1;
        expect(&v);
        self.known.push(v.clone());
        v
    }
    /// A version with symbolic serial and the picked session and delta count.
    pub fn any(&mut self, n: &str, sess: &[&'static str], nds: &[u64]) -> Ver {
        let s = if sess.len() == 1 { sess[0] } else { sess[vp::pick(&format!("{n}.session"), sess.len() as u64) as usize] };
        let nd = if nds.len() == 1 { nds[0] } else { nds[vp::pick(&format!("{n}.deltas"), nds.len() as u64) as usize] };
        let ser = vp::u64v(&format!("{n}.serial"), LO, HI);
        self.ver(s, ser, nd)
    }
    pub fn serve(&self, v: &Ver) {
        unserve();
        v.serve();
    }
    pub fn run(&self) -> End {
        run(&self.c)
    }
    pub fn rrdp(&self) -> String {
        self.c.rrdp.clone().unwrap_or_else(|| self.r("state/rrdp"))
    }
    pub fn rsync(&self) -> String {
        self.c.rsync.clone().unwrap_or_else(|| self.r("state/rsync"))
    }
    pub fn state(&self) -> String {
        self.c.state.clone().unwrap()
    }
    pub fn published(&self, id: &str) -> Option<Pub> {
        published(&self.rrdp(), BASE, "notification.xml", id)
    }
    pub fn host(&self) -> bool {
        self.c.extra.iter().any(|x| x == "--rsync-include-host")
    }
    pub fn current_tree(&self) -> Option<Vec<(String, Vec<u8>)>> {
        let p = format!("{}/current", self.rsync());
        if fs::metadata(&p).is_ok() {
            Some(tree(&p))
        } else {
            None
        }
    }
    pub fn current_is(&self, v: &Ver) -> bool {
        match self.current_tree() {
            Some(t) => same_tree(&t, &objs_tree(&v.objs, self.host())),
            None => false,
        }
    }
}
/// Symbolic seconds for `--cleanup-after`.
pub fn any_cleanup(h: &mut H, digits: usize) -> u64 {
    let (s, v) = sym_digits("cleanup", digits);
    h.c.cleanup = Some(s);
    v
}
/// A later moment of the same day.
pub fn later(n: &str, from: u64) -> u64 {
    let t = vp::u64v(n, T0, T0 + 5000);
    vp::assume(t >= from);
    vp::clock(t);
    t
}
pub fn arm_crash() {
    let k = vp::u64v("crash_at", 0, 400);
    let torn = vp::u64v("torn", 0, 1);
    vp::arm(k, torn, u64::MAX, 0);
}
pub fn arm_fault() {
    let k = vp::u64v("fault_at", 0, 2000);
    let kind = vp::u64v("fault_kind", 0, 2);
    vp::arm(u64::MAX, 0, k, kind);
}
/// What the public sees and what was saved: notification, the files it
/// references, the rsync tree `current` stands for, and the state files.
pub struct Snap {
    notif: Option<Vec<u8>>,
    refs: Vec<(String, Vec<u8>)>,
    current: Option<Vec<(String, Vec<u8>)>>,
    state: Vec<(String, Vec<u8>)>,
}
pub fn snap(h: &H, id: &str) -> Snap {
    let state = snap_state(h);
    let notif = read(&format!("{}/notification.xml", h.rrdp()));
    let mut refs = vec![];
    if let Some(p) = h.published(id) {
        let mut add = |u: &str| {
            let rel = u.strip_prefix(BASE).unwrap();
            refs.push((rel.to_string(), read(&format!("{}/{rel}", h.rrdp())).unwrap_or_default()));
        };
        add(p.n.snapshot().uri().as_str());
        for d in p.n.deltas() {
            add(d.uri().as_str());
        }
    }
    Snap { notif, refs, current: h.current_tree(), state }
}
impl Snap {
    /// Nothing of it has changed since.
    pub fn unchanged(&self, h: &H, id: &str) {
        vp::check(read(&format!("{}/notification.xml", h.rrdp())) == self.notif, &format!("{id}.notification-changed"));
        for (f, b) in &self.refs {
            vp::check(read(&format!("{}/{f}", h.rrdp())).as_ref() == Some(b), &format!("{id}.file-changed"));
        }
        let ok = match (&self.current, &h.current_tree()) {
            (None, None) => true,
            (Some(a), Some(b)) => same_tree(a, b),
            _ => false,
        };
        vp::check(ok, &format!("{id}.rsync-changed"));
        let now = snap_state(h);
        vp::check(same_tree(&self.state, &now), &format!("{id}.state-changed"));
    }
}
fn snap_state(h: &H) -> Vec<(String, Vec<u8>)> {
    let mut state = vec![];
    if let Ok(rd) = fs::read_dir(h.state()) {
        for e in rd.flatten() {
            let p = e.path();
            let p = p.to_str().unwrap();
            if p.ends_with(".json") {
                state.push((p.to_string(), read(p).unwrap_or_default()));
            }
        }
    }
    state
}

// ---------------------------------------------------------------- C01 / C06 / C07: kills
/// A run that must succeed.
pub fn good(h: &H, id: &str) {
    let e = h.run();
    vp::check(e == End::Ret(0), &format!("{id}.good-run-fails"));
}
/// First a complete run, then one that is killed at any point.
fn crash2(h: &mut H, s2: &[&'static str], nd2: &[u64]) -> (Ver, Ver, End) {
    let v1 = h.any("v1", &[SA], &[2]);
    let t1 = later("t1", T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", s2, nd2);
    later("t2", t1);
    h.serve(&v2);
    arm_crash();
    let e2 = h.run();
    vp::disarm();
    (v1, v2, e2)
}
fn seen(h: &H, vs: &[(&Ver, &str)], id: &str) {
    let p = h.published(id);
    vp::check(p.is_some(), &format!("{id}.notification-gone"));
    if let Some(p) = p {
        for (v, n) in vs {
            if p.n.snapshot().hash() == hash(&v.snap) {
                vp::cover(n);
                break;
            }
        }
    }
}
fn c06_ok(h: &H, vs: &[&Ver], id: &str) {
    let p = format!("{}/current", h.rsync());
    vp::check(exists(&p), &format!("{id}.current-gone"));
    match h.current_tree() {
        None => vp::check(false, &format!("{id}.current-dangling")),
        Some(t) => vp::check(vs.iter().any(|v| same_tree(&t, &objs_tree(&v.objs, h.host()))), &format!("{id}.current-mixed")),
    }
}
fn ended(e: End) {
    match e {
        End::Crash => vp::cover("killed"),
        End::Ret(0) => vp::cover("complete"),
        _ => vp::cover("failed"),
    }
}
/// C01: the very first run, killed anywhere.
#[no_mangle]
pub extern "C" fn h_c01_first() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let v1 = h.any("v1", &[SA], &[0, 1, 3]);
    h.serve(&v1);
    arm_crash();
    let e = h.run();
    vp::disarm();
    ended(e);
    let p = h.published("C01");
    if p.is_some() {
        vp::cover("published");
    }
    vp::check(p.is_some() || e != End::Ret(0), "C01.no-notification");
}
/// C01 at every instant of the second run.
#[no_mangle]
pub extern "C" fn h_c01_crash() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let (v1, v2, e) = crash2(&mut h, &[SA, SB], &[1, 3]);
    ended(e);
    seen(&h, &[(&v2, "new version visible"), (&v1, "old version visible")], "C01");
}
/// C01 when any file operation of the second run fails, and at every instant of
/// the run after it.
#[no_mangle]
pub extern "C" fn h_c01_fault() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let v1 = h.any("v1", &[SA], &[2]);
    let t1 = later("t1", T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", &[SA, SB], &[1]);
    later("t2", t1);
    h.serve(&v2);
    arm_fault();
    let e = h.run();
    vp::disarm();
    ended(e);
    seen(&h, &[(&v2, "new version visible"), (&v1, "old version visible")], "C01");
}
/// C01 at every instant of a third run, with symbolic times and cleanup.
#[no_mangle]
pub extern "C" fn h_c01_three() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let v1 = h.any("v1", &[SA], &[1]);
    let t = later("t1", T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", &[SA, SB], &[1]);
    let t = later("t2", t);
    h.serve(&v2);
    h.run();
    let v3 = h.any("v3", &[SA, SB], &[2]);
    later("t3", t);
    h.serve(&v3);
    arm_crash();
    let e = h.run();
    vp::disarm();
    ended(e);
    seen(&h, &[(&v3, "v3 visible"), (&v2, "v2 visible"), (&v1, "v1 visible")], "C01");
}
/// Staging on another file system; a kill in the second run, then a kill in the
/// run that repeats it.
fn twice(h: &mut H) -> (Ver, Ver, Ver) {
    if vp::pick("staging on other device", 2) == 1 {
        vp::xdev(&h.r("state"));
    }
    let v1 = h.any("v1", &[SA], &[1]);
    let t1 = later("t1", T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", &[SA, SB], &[1]);
    let t2 = later("t2", t1);
    h.serve(&v2);
    arm_crash();
    h.run();
    vp::disarm();
    let v3 = if vp::pick("source moved on", 2) == 1 { h.any("v3", &[v2.session], &[1]) } else { v2.clone() };
    later("t3", t2);
    h.serve(&v3);
    let k = vp::u64v("crash2_at", 0, 400);
    let torn = vp::u64v("torn2", 0, 1);
    vp::arm(k, torn, u64::MAX, 0);
    let e = h.run();
    vp::disarm();
    ended(e);
    (v1, v2, v3)
}
#[no_mangle]
pub extern "C" fn h_c01_twice() {
    let mut h = H::new();
    any_cleanup(&mut h, 1);
    let (v1, v2, v3) = twice(&mut h);
    seen(&h, &[(&v3, "v3 visible"), (&v2, "v2 visible"), (&v1, "v1 visible")], "C01");
}
#[no_mangle]
pub extern "C" fn h_c06_twice() {
    let mut h = H::new();
    any_cleanup(&mut h, 1);
    let (v1, v2, v3) = twice(&mut h);
    c06_ok(&h, &[&v1, &v2, &v3], "C06");
}
#[no_mangle]
pub extern "C" fn h_c06_first() {
    let mut h = H::new();
    let host = vp::pick("include host", 2) == 1;
    if host {
        h.c = h.c.clone().arg("--rsync-include-host");
    }
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    arm_crash();
    let e = h.run();
    vp::disarm();
    ended(e);
    let p = format!("{}/current", h.rsync());
    if exists(&p) || e == End::Ret(0) {
        c06_ok(&h, &[&v1], "C06");
    }
}
#[no_mangle]
pub extern "C" fn h_c06_crash() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let (v1, v2, e) = crash2(&mut h, &[SA, SB], &[1]);
    ended(e);
    c06_ok(&h, &[&v1, &v2], "C06");
}
#[no_mangle]
pub extern "C" fn h_c06_fault() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let v1 = h.any("v1", &[SA], &[1]);
    let t1 = later("t1", T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", &[SA, SB], &[1]);
    later("t2", t1);
    h.serve(&v2);
    arm_fault();
    let e = h.run();
    vp::disarm();
    ended(e);
    c06_ok(&h, &[&v1, &v2], "C06");
}
/// Complete runs: current equals what the notification lists.
#[no_mangle]
pub extern "C" fn h_c06_seq() {
    let mut h = H::new();
    any_cleanup(&mut h, 3);
    let host = vp::pick("include host", 2) == 1;
    if host {
        h.c = h.c.clone().arg("--rsync-include-host");
    }
    let mut t = T0;
    let mut vs: Vec<Ver> = vec![];
    for i in 0..3 {
        let v = h.any(&format!("v{i}"), &[SA, SB], &[1]);
        t = later(&format!("t{i}"), t);
        h.serve(&v);
        let e = h.run();
        if e == End::Ret(0) {
            let p = h.published("C06");
            vp::check(p.is_some(), "C06.no-notification");
            let ph = p.unwrap().n.snapshot().hash();
            vs.push(v);
            for v in vs.iter().rev() {
                if hash(&v.snap) == ph {
                    vp::check(h.current_is(v), "C06.current-not-published-version");
                    vp::cover(&format!("checked {i}"));
                    break;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C05 / C07: grace
struct Old {
    path: String,
    tree: Vec<(String, Vec<u8>)>,
    since: Option<u64>,
    /// number of the run that dropped it
    run: usize,
}
fn dir_empty(d: &str) -> bool {
    match fs::read_dir(d) {
        Ok(mut r) => r.next().is_none(),
        Err(_) => false,
    }
}
fn parents_ok(base: &str, rel: &str, id: &str) {
    let mut r = rel;
    while let Some((p, _)) = r.rsplit_once('/') {
        vp::check(!dir_empty(&format!("{base}/{p}")), &format!("{id}.empty-dir-left"));
        r = p;
    }
}
fn grace(n: usize, mode: u32) {
    grace_seq(n, mode, None)
}
/// `seq`: the session of each run, which is an update each.
fn grace_seq(n: usize, mode: u32, seq: Option<&[&'static str]>) {
    let mut h = H::new();
    let cl = any_cleanup(&mut h, 3);
    if mode == 1 && seq.is_some() {
        h.c.extra.push("--rsync-disable".into());
    }
    let (r5, r7) = (mode & 1 != 0, mode & 2 != 0);
    let mut files: Vec<Old> = vec![];
    let mut dirs: Vec<Old> = vec![];
    let mut t = T0;
    for i in 0..n {
        let v = match seq {
            None => h.any(&format!("v{i}"), &[SA, SB], if i == 0 { &[2] } else { &[1] }),
            Some(s) => {
                // serials do not matter here, times do
                let ser = 20 + i as u64;
                h.ver(s[i], ser, if i == 0 { 2 } else { 1 })
            }
        };
        t = later(&format!("t{i}"), t);
        h.serve(&v);
        let before = read(&format!("{}/rrdp-state.json", h.state()));
        let e = h.run();
        if e != End::Ret(0) {
            continue;
        }
        if read(&format!("{}/rrdp-state.json", h.state())) == before {
            continue;
        }
        if r5 {
            let p = match h.published("C05") {
                Some(p) => p,
                None => return vp::check(false, "C05.no-notification"),
            };
            let mut now: Vec<String> = vec![];
            now.push(p.n.snapshot().uri().as_str()[BASE.len()..].to_string());
            for d in p.n.deltas() {
                now.push(d.uri().as_str()[BASE.len()..].to_string());
            }
            for f in files.iter_mut() {
                let k = now.iter().position(|x| *x == f.path);
                match k {
                    Some(k) => {
                        now.remove(k);
                        f.since = None;
                    }
                    None => {
                        if f.since.is_none() {
                            f.since = Some(t);
                            f.run = i;
                        }
                    }
                }
            }
            for x in now {
                files.push(Old { path: x, tree: vec![], since: None, run: 0 });
            }
            for f in &files {
                let p = format!("{}/{}", h.rrdp(), f.path);
                if let Some(d) = f.since {
                    if t - d < cl {
                        vp::check(exists(&p), "C05.removed-early");
                        vp::cover("kept in grace");
                    } else if t - d > cl && f.run < i {
                        vp::check(!exists(&p), "C05.not-removed");
                        parents_ok(&h.rrdp(), &f.path, "C05");
                        vp::cover("removed after grace");
                    }
                }
            }
        }
        if r7 {
            let cur = match fs::canonicalize(format!("{}/current", h.rsync())) {
                Ok(p) => p.to_str().unwrap().to_string(),
                Err(_) => return vp::check(false, "C07.current-dangling"),
            };
            let mut found = false;
            for f in dirs.iter_mut() {
                if f.path == cur {
                    found = true;
                    f.since = None;
                } else if f.since.is_none() {
                    f.since = Some(t);
                    f.run = i;
                }
            }
            if !found {
                dirs.push(Old { tree: tree(&cur), path: cur, since: None, run: 0 });
            }
            for f in &dirs {
                match f.since {
                    None => vp::check(same_tree(&tree(&f.path), &f.tree), "C07.current-incomplete"),
                    Some(d) => {
                        if t - d < cl {
                            vp::check(exists(&f.path), "C07.removed-early");
                            vp::check(same_tree(&tree(&f.path), &f.tree), "C07.incomplete-early");
                            vp::cover("kept in grace");
                        } else if t - d > cl && f.run < i {
                            vp::check(!exists(&f.path), "C07.not-removed");
                            vp::cover("removed after grace");
                        }
                    }
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c05_three() {
    grace(3, 1)
}
#[no_mangle]
pub extern "C" fn h_c05_four() {
    grace(4, 1)
}
#[no_mangle]
pub extern "C" fn h_c07_three() {
    grace(3, 2)
}
#[no_mangle]
pub extern "C" fn h_c07_four() {
    grace(4, 2)
}

fn patterns() -> [&'static str; 5] {
    match vp::pick("sessions", 3) {
        0 => [SA, SA, SA, SA, SA],
        1 => [SA, SB, SB, SB, SB],
        _ => [SA, SA, SB, SB, SA],
    }
}
#[no_mangle]
pub extern "C" fn h_c05_long() {
    grace_seq(5, 1, Some(&patterns()))
}
#[no_mangle]
pub extern "C" fn h_c07_long() {
    grace_seq(5, 2, Some(&patterns()))
}

// ---------------------------------------------------------------- C09: recovery
fn c09(kill: bool) {
    let mut h = H::new();
    any_cleanup(&mut h, 1);
    if vp::pick("staging on other device", 2) == 1 {
        vp::xdev(&h.r("state"));
    }
    // the same history without interruption, in directories of its own
    let mut u = H::new();
    u.c.state = Some(h.r("u/state"));
    u.c.rrdp = Some(h.r("u/rrdp"));
    u.c.rsync = Some(h.r("u/rsync"));
    u.c.cleanup = h.c.cleanup.clone();
    let mut t = T0;
    if vp::pick("earlier version published", 2) == 1 {
        let v1 = h.any("v1", &[SA], &[1]);
        t = later("t1", t);
        h.serve(&v1);
        let e = h.run();
        vp::assume(e == End::Ret(0));
        let e = u.run();
        vp::assume(e == End::Ret(0));
    }
    let v2 = h.any("v2", &[SA, SB], &[1]);
    let t2 = later("t2", t);
    h.serve(&v2);
    let e = u.run();
    vp::assume(e == End::Ret(0));
    let v3 = if vp::pick("source moved on", 2) == 1 { h.any("v3", &[v2.session], &[2]) } else { v2.clone() };
    let t3 = later("t3", t2);
    h.serve(&v3);
    let e = u.run();
    vp::assume(e == End::Ret(0));
    let q = u.published("C09");
    vp::check(q.is_some(), "C09.no-notification");
    let q = q.unwrap();
    let b = u.current_tree().unwrap_or_default();

    vp::clock(t2);
    h.serve(&v2);
    if kill {
        arm_crash();
    } else {
        arm_fault();
    }
    let e = h.run();
    vp::disarm();
    ended(e);
    vp::clock(t3);
    h.serve(&v3);
    good(&h, "C09");
    let p = h.published("C09");
    vp::check(p.is_some(), "C09.no-notification");
    vp::check(p.unwrap().raw == q.raw, "C09.other-notification");
    let a = h.current_tree();
    vp::check(a.is_some() && same_tree(&a.unwrap(), &b), "C09.other-rsync-tree");
}
#[no_mangle]
pub extern "C" fn h_c09_kill() {
    c09(true)
}
#[no_mangle]
pub extern "C" fn h_c09_fault() {
    c09(false)
}
