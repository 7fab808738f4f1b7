//! Configuration: source mapping, locking, directories, scripts, containment.
use crate::scen::*;
use crate::vp::{self, End, Ev};
use crate::world::*;
use std::fs;

pub fn events() -> Vec<Ev> {
    (0..vp::log_len()).map(vp::log).collect()
}
fn mutating(e: &Ev) -> bool {
    matches!(e.op, vp::CREATE | vp::WRITE | vp::MKDIR | vp::RENAME | vp::UNLINK | vp::RMDIR | vp::SYMLINK | vp::UTIME | vp::TRUNC)
}
fn below(p: &str, d: &str) -> bool {
    p.len() > d.len() && p.starts_with(d) && p.as_bytes()[d.len()] == b'/'
}
/// `n` bytes, each any printable ASCII character.
fn sym_text(name: &str, n: usize) -> String {
    let mut s = vec![];
    for i in 0..n {
        s.push(vp::u8v(&format!("{name}.{i}"), 0x21, 0x7e));
    }
    unsafe { String::from_utf8_unchecked(s) }
}
fn sneaky(b: &str) -> bool {
    b.bytes().any(|c| c == b'<' || c == b'>' || c == b'&' || c == b'"' || c == b'\'')
}

// ---------------------------------------------------------------- C14: who is contacted
const SRC: &str = "https://src.example/mirror/";
fn c14(sym: bool) {
    let mut h = H::new();
    let map = vp::pick("source base", 3);
    let insecure = vp::pick("insecure", 2) == 1;
    let dir = h.r("mirror");
    if map == 1 {
        h.c.extra.push("--source-uri-base".into());
        h.c.extra.push(SRC.into());
    } else if map == 2 {
        let _ = fs::create_dir_all(&dir);
        h.c.extra.push("--source-uri-base".into());
        h.c.extra.push(format!("{dir}/"));
    }
    if insecure {
        h.c.extra.push("--insecure".into());
    }
    let mut v = version(SA, 7, 1, objs(0));
    // where the snapshot or the delta is said to be
    let which = vp::pick("which", 2);
    let uri = if sym {
        match vp::pick("uri", 3) {
            0 => format!("https://h.example/rrdp{}/s.xml", sym_text("uri", 2)),
            1 => format!("https://h.example/rrd{}s.xml", sym_text("uri", 2)),
            _ => format!("https://h.exampl{}rrdp/s.xml", sym_text("uri", 2)),
        }
    } else {
        match vp::pick("uri", 7) {
            0 => format!("{BASE}a/b/c.xml"),
            1 => "https://other.example/rrdp/s.xml".to_string(),
            2 => "https://h.example/rrdpx/s.xml".to_string(),
            3 => "https://h.example/s.xml".to_string(),
            4 => "https://h.example:8080/rrdp/s.xml".to_string(),
            5 => format!("{BASE}src.example/s.xml"),
            _ => "https://src.example/mirror/s.xml".to_string(),
        }
    };
    if sneaky(&uri) {
        return;
    }
    if which == 0 {
        v.snap_uri = uri.clone();
    } else {
        v.deltas[0].uri = uri.clone();
    }
    let to = |u: &str| match u.strip_prefix(BASE) {
        None => None,
        Some(r) => Some(match map {
            0 => u.to_string(),
            1 => format!("{SRC}{r}"),
            _ => format!("{dir}/{r}"),
        }),
    };
    unserve();
    let mut put = |u: &str, b: &[u8]| match to(u) {
        Some(t) if map == 2 => {
            if !sym || u != uri {
                let _ = fs::create_dir_all(t.rsplit_once('/').unwrap().0);
                let _ = fs::write(t, b);
            }
        }
        // also served where it must not be asked for
        Some(t) => {
            serve(&t, b);
        }
        None => serve(u, b),
    };
    put(NOTIF, &v.notification());
    put(&v.snap_uri, &v.snap);
    put(&v.deltas[0].uri, &v.delta_body[0]);
    vp::log_clear();
    let e = h.run();
    let mut asked: Vec<String> = vec![];
    for ev in events() {
        if ev.op == vp::GET {
            vp::check(map != 2, "C14.network-used-with-directory-source");
            vp::check(ev.x & 0xff == if insecure { 3 } else { 0 }, "C14.certificate-checks");
            asked.push(ev.a);
        } else if ev.op == vp::READ && map == 2 && below(&ev.a, &dir) {
            asked.push(ev.a);
        } else if ev.op == vp::READ && !below(&ev.a, &h.state()) && !below(&ev.a, &h.rrdp()) && !below(&ev.a, &h.rsync()) && !below(&ev.a, &dir) {
            vp::check(false, "C14.reads-elsewhere");
        }
    }
    let mut all: Vec<String> = vec![];
    for u in [NOTIF, &v.snap_uri, &v.deltas[0].uri] {
        if let Some(t) = to(u) {
            all.push(t);
        }
    }
    for a in &asked {
        vp::check(all.contains(a), "C14.other-uri-fetched");
    }
    if to(&uri).is_none() {
        vp::check(e != End::Ret(0), "C14.outside-base-accepted");
        vp::cover("outside of the base");
    } else if e == End::Ret(0) {
        // each of them was asked for where it should be, the notification first
        vp::check(asked.first() == Some(&all[0]), "C14.notification-first");
        for t in &all {
            vp::check(asked.contains(t), "C14.not-fetched-from-source");
        }
        vp::cover("fetched");
    } else if !sym {
        vp::check(false, "C14.fetch-fails");
    }
}
#[no_mangle]
pub extern "C" fn h_c14_uris() {
    c14(false)
}
#[no_mangle]
pub extern "C" fn h_c14_bytes() {
    c14(true)
}

// ---------------------------------------------------------------- C15: locking
#[no_mangle]
pub extern "C" fn h_c15_lock() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    if vp::pick("rsync disabled", 2) == 1 {
        h.c.extra.push("--rsync-disable".into());
    }
    if vp::pick("script", 2) == 1 {
        h.c.extra.push("--pre-validate=/bin/check".into());
    }
    if vp::pick("earlier version published", 2) == 1 {
        let v1 = h.any("v1", &[SA], &[1]);
        h.serve(&v1);
        let e = h.run();
        vp::assume(e == End::Ret(0));
    }
    let v2 = h.any("v2", &[SA, SB], &[1]);
    h.serve(&v2);
    vp::clock(T0 + 100);
    let held = vp::u64v("held by another", 0, 1);
    vp::lockheld(held);
    let before = snap(&h, "C15");
    vp::log_clear();
    let e = h.run();
    vp::lockheld(0);
    let mut any = false;
    let state = h.state();
    for ev in events() {
        any |= ev.op == vp::GET;
        let allowed = (ev.op == vp::MKDIR && (ev.a == state || below(&state, &ev.a)))
            || (matches!(ev.op, vp::CREATE | vp::TRUNC) && below(&ev.a, &state) && ev.a.ends_with(".lock"))
            || ev.op == vp::LOCK;
        if held != 0 {
            vp::check(ev.op != vp::GET, "C15.contacts-source-without-lock");
            vp::check(ev.op != vp::EXEC, "C15.runs-script-without-lock");
            vp::check(!mutating(&ev) || allowed, "C15.changes-without-lock");
        } else if !ev.locked {
            vp::check(allowed, "C15.acts-without-lock");
        }
    }
    if held != 0 {
        vp::check(e != End::Ret(0), "C15.success-without-lock");
        before.unchanged(&h, "C15");
        vp::cover("held by another");
    } else {
        vp::check(any, "C15.does-nothing");
        vp::cover("lock free");
    }
}
/// The lock is held at every operation also when the run fails or is killed.
#[no_mangle]
pub extern "C" fn h_c15_fail() {
    let mut h = H::new();
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = h.any("v2", &[SA, SB], &[1]);
    h.serve(&v2);
    vp::clock(T0 + 100);
    vp::log_clear();
    arm_fault();
    h.run();
    vp::disarm();
    let state = h.state();
    for ev in events() {
        let allowed = (ev.op == vp::MKDIR && (ev.a == state || below(&state, &ev.a)))
            || (matches!(ev.op, vp::CREATE | vp::TRUNC) && below(&ev.a, &state) && ev.a.ends_with(".lock"))
            || ev.op == vp::LOCK;
        if !ev.locked {
            vp::check(allowed, "C15.acts-without-lock");
        }
    }
    vp::cover("done");
}

// ---------------------------------------------------------------- C16: where it goes
#[no_mangle]
pub extern "C" fn h_c16_dirs() {
    let mut h = H::new();
    let st = [h.r("state"), h.r("a/b/state"), h.r("var/lib/krill-sync")][vp::pick("state dir", 3) as usize].clone();
    h.c.state = Some(st.clone());
    h.c.rrdp = match vp::pick("rrdp dir", 3) {
        0 => None,
        1 => Some(h.r("web")),
        _ => Some(h.r("var/lib/krill-sync/rrdp")),
    };
    h.c.rsync = match vp::pick("rsync dir", 3) {
        0 => None,
        1 => Some(h.r("files")),
        _ => Some(h.r("var/lib/krill-sync/rsync")),
    };
    let rrdp = h.c.rrdp.clone().unwrap_or(format!("{st}/rrdp"));
    let rsync = h.c.rsync.clone().unwrap_or(format!("{st}/rsync"));
    let v = h.any("v", &[SA], &[1]);
    h.serve(&v);
    vp::log_clear();
    let e = h.run();
    vp::check(e == End::Ret(0), "C16.run-fails");
    for ev in events() {
        if mutating(&ev) {
            let ok = ev.a == st || below(&ev.a, &st) || below(&ev.a, &rrdp) || below(&ev.a, &rsync) || ev.op == vp::MKDIR && (below(&st, &ev.a) || below(&rrdp, &ev.a) || below(&rsync, &ev.a) || ev.a == rrdp || ev.a == rsync);
            vp::check(ok, "C16.elsewhere");
        }
    }
    let p = published(&rrdp, BASE, "notification.xml", "C16");
    vp::check(p.is_some(), "C16.not-published");
    vp::check(p.unwrap().n.serial() == v.serial, "C16.other-serial");
    let t = tree(&format!("{rsync}/current"));
    vp::check(same_tree(&t, &objs_tree(&v.objs, false)), "C16.rsync-elsewhere");
    vp::cover("published");
}
/// Two runs with different settings.
#[no_mangle]
pub extern "C" fn h_c16_change() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    vp::clock(T0 + 100);
    if vp::pick("other rrdp dir", 2) == 1 {
        h.c.rrdp = Some(h.r("web"));
    }
    if vp::pick("other rsync dir", 2) == 1 {
        h.c.rsync = Some(h.r("files"));
    }
    let (base, name) = match vp::pick("notification", 4) {
        0 => (BASE, "notification.xml"),
        1 => (BASE, "other.xml"),
        2 => ("https://h.example/", "notification.xml"),
        _ => ("https://n.example/rrdp/", "notification.xml"),
    };
    h.c.uri = format!("{base}{name}");
    let mut v2 = h.any("v2", &[SA, SB], &[1]);
    // the same at the URIs of the other source
    let mv = |u: &str| u.replace(BASE, base);
    v2.snap_uri = mv(&v2.snap_uri);
    v2.deltas[0].uri = mv(&v2.deltas[0].uri);
    unserve();
    serve(&h.c.uri, &v2.notification());
    serve(&v2.snap_uri, &v2.snap);
    serve(&v2.deltas[0].uri, &v2.delta_body[0]);
    if vp::pick("rsync disabled", 2) == 1 {
        h.c.extra.push("--rsync-disable".into());
    }
    vp::log_clear();
    let e = h.run();
    let moved = h.rrdp() != h.r("rrdp") || h.c.uri != NOTIF;
    let newer = v2.session != v1.session || v2.serial > v1.serial;
    if moved || newer {
        vp::check(e == End::Ret(0), "C16.update-fails");
        let p = published(&h.rrdp(), base, name, "C16");
        vp::check(p.is_some(), "C16.not-published");
        let n = p.unwrap().n;
        vp::check(n.session_id().to_string() == v2.session && n.serial() == v2.serial, "C16.other-version");
        if h.c.extra.is_empty() {
            let t = tree(&format!("{}/current", h.rsync()));
            vp::check(same_tree(&t, &objs_tree(&v2.objs, false)), "C16.rsync-elsewhere");
        }
        vp::cover(if moved { "moved" } else { "updated in place" });
    }
    for ev in events() {
        if mutating(&ev) {
            let ok = below(&ev.a, &h.state()) || below(&ev.a, &h.rrdp()) || below(&ev.a, &h.rsync()) || ev.op == vp::MKDIR && (ev.a == h.rrdp() || ev.a == h.rsync());
            vp::check(ok, "C16.elsewhere");
        }
    }
}

// ---------------------------------------------------------------- C10: scripts
#[no_mangle]
pub extern "C" fn h_c10_scripts() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let earlier = vp::pick("earlier version published", 2) == 1;
    let mut v1 = None;
    if earlier {
        let v = h.any("v1", &[SA], &[1]);
        h.serve(&v);
        let e = h.run();
        vp::assume(e == End::Ret(0));
        v1 = Some(v);
    }
    let n = vp::pick("scripts", 4);
    for i in 0..n {
        h.c.extra.push(format!("--pre-validate=/opt/check{i}"));
    }
    let reject = vp::pick("reject", 2) == 1;
    if reject {
        h.c.extra.push("--tal-reject-invalid".into());
    }
    let mut st: Vec<u64> = vec![];
    for i in 0..n {
        // exit status, 256 + signal, or 1000: cannot be started
        let s = vp::u64v(&format!("status.{i}"), 0, 265);
        vp::assume(s < 256 || s == 256 + 9);
        st.push(s);
    }
    vp::scripts(&st);
    let v2 = h.any("v2", &[SA, SB], &[1]);
    if let Some(v1) = &v1 {
        vp::assume(v2.session != v1.session || v2.serial > v1.serial);
    }
    h.serve(&v2);
    vp::clock(T0 + 100);
    let before = snap(&h, "C10");
    vp::log_clear();
    let e = h.run();
    let evs = events();
    let mut ran = 0u64;
    let staging = format!("{}/pre-validate-staging", h.state());
    let lockf = format!("{}/krill-sync.lock", h.state());
    for ev in &evs {
        if ev.op == vp::EXEC {
            vp::check(ev.a == format!("/opt/check{ran}"), "C10.script-order");
            ran += 1;
        } else if ev.op == vp::GET {
            vp::check(ran == 0, "C10.fetch-after-script");
        } else if mutating(ev) {
            let staged = ev.a == staging || below(&ev.a, &staging);
            if ran == 0 && n > 0 {
                vp::check(staged || ev.a == lockf || ev.op == vp::MKDIR && ev.a == h.state(), "C10.changed-before-scripts");
            }
            if ran > 0 && staged {
                vp::check(matches!(ev.op, vp::RENAME | vp::UNLINK | vp::RMDIR), "C10.staged-after-script");
            }
            if ran > 0 && ran < n {
                vp::check(false, "C10.changed-between-scripts");
            }
        }
    }
    vp::check(ran == n, "C10.script-not-run");
    let bad = st.iter().any(|s| *s != 0);
    if bad && reject {
        vp::check(e != End::Ret(0), "C10.rejected-content-accepted");
        before.unchanged(&h, "C10");
        vp::cover("rejected");
    } else {
        vp::check(e == End::Ret(0), "C10.update-fails");
        let p = h.published("C10");
        vp::check(p.is_some(), "C10.no-notification");
        let p = p.unwrap().n;
        vp::check(p.serial() == v2.serial && p.session_id().to_string() == v2.session, "C10.not-published");
        vp::check(h.current_is(&v2), "C10.rsync-tree");
        vp::cover(if bad { "reported" } else { "passed" });
    }
}
/// A script that cannot even be started.
#[no_mangle]
pub extern "C" fn h_c10_missing() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    h.c.extra.push("--tal-reject-invalid".into());
    h.c.extra.push("--pre-validate=/opt/check0".into());
    h.c.extra.push("--pre-validate=/opt/check1".into());
    let s = [vp::pick("first missing", 2) * 1000, vp::pick("second missing", 2) * 1000];
    vp::scripts(&s);
    let v2 = h.any("v2", &[SB], &[1]);
    h.serve(&v2);
    let before = snap(&h, "C10");
    let e = h.run();
    if s[0] + s[1] > 0 {
        vp::check(e != End::Ret(0), "C10.missing-script-accepted");
        before.unchanged(&h, "C10");
        vp::cover("rejected");
    } else {
        vp::check(e == End::Ret(0), "C10.update-fails");
        vp::cover("passed");
    }
}

// ---------------------------------------------------------------- C08: containment
/// Names directly below the configured directories, and nothing else, are
/// the program's own choice: those of a run with harmless URIs are the norm.
fn top(h: &H) -> Vec<String> {
    let mut out = vec![];
    for d in [h.state(), h.rrdp(), h.rsync()] {
        for ev in events() {
            if mutating(&ev) {
                for p in [&ev.a, &ev.b] {
                    if below(p, &d) {
                        let r = &p[d.len() + 1..];
                        let name = r.split('/').next().unwrap().to_string();
                        let n = format!("{d}/{name}");
                        if !out.contains(&n) {
                            out.push(n);
                        }
                    }
                }
            }
        }
    }
    out
}
fn contained(h: &H, norm: &[String]) {
    let staging = format!("{}/pre-validate-staging", h.state());
    for ev in events() {
        if !mutating(&ev) {
            continue;
        }
        for p in [&ev.a, &ev.b] {
            if p.is_empty() || ev.op == vp::SYMLINK && p == &ev.b {
                continue;
            }
            let dirs = [h.state(), h.rrdp(), h.rsync()];
            let inside = dirs.iter().any(|d| p == d || below(p, d));
            vp::check(inside, "C08.outside");
            if inside && !below(p, &h.rrdp()) && !below(p, &staging) {
                // the program's own names, or below the new revision's directory
                let ok = dirs.iter().any(|d| p == d) || norm.iter().any(|n| n == p) || (below(p, &h.rsync()) && norm.iter().any(|n| below(p, n)));
                vp::check(ok, "C08.other-file");
            }
        }
    }
}
fn c08_norm(h: &mut H) -> Vec<String> {
    let v1 = version(SA, 7, 1, objs(0));
    h.serve(&v1);
    vp::log_clear();
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let v2 = version(SB, 8, 1, objs(1));
    h.serve(&v2);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let mut n = top(h);
    // what the objects below belong to
    n.push(format!("{}/session_{SC}_serial_9", h.rsync()));
    n
}
fn guards(h: &H) {
    // things that must survive
    for p in ["x", "s", "keep/x", "keep/s"] {
        let f = h.r(p);
        let _ = fs::create_dir_all(f.rsplit_once('/').unwrap().0);
        let _ = fs::write(&f, b"keep");
    }
}
/// Ways to say "one up", should anything decode or normalise them.
fn hazard() -> &'static str {
    [
        "%2e%2e/%2e%2e/%2e%2e/x",
        "%2E%2E/%2E%2E/%2E%2E/%2E%2E/x",
        "%2e./.%2e/%2e./.%2E/x",
        "..%2f..%2f..%2f..%2fx",
        "%2e%2e%2f%2e%2e%2f%2e%2e%2fx",
        "%252e%252e/%252e%252e/%252e%252e/x",
        "..\\..\\..\\..\\x",
        "....//....//....//x",
        "..;/..;/..;/x",
        "%2Fx",
        "%00/../../../../x",
        "a/b/../../../../../x",
        "~/x",
        "./././x",
    ][vp::pick("hazard", 14) as usize]
}
/// Three times the same segment, which is some escaping of two characters.
fn repeated(name: &str) -> String {
    let k = 3;
    let c = sym_text(name, 2);
    let seg = match vp::pick("escape", 2) {
        0 => format!("%{c}%{c}"),
        _ => format!(".{c}."),
    };
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(&seg);
        s.push('/');
    }
    s.push('x');
    s
}
/// RRDP URIs with free bytes in them.
#[no_mangle]
pub extern "C" fn h_c08_rrdp() {
    let mut h = H::new();
    h.c.extra.push("--rsync-disable".into());
    guards(&h);
    let norm = c08_norm(&mut h);
    let mut v = version(SC, 9, 1, vec![]);
    let tpl = vp::pick("template", 8);
    let uri = match tpl {
        5 => format!("{BASE}{}", hazard()),
        6 => format!("{BASE}a/{}", hazard()),
        7 => format!("{BASE}{}", repeated("b")),
        0 => format!("{BASE}{}x", sym_text("b", 3)),
        1 => format!("{BASE}a{}x", sym_text("b", 3)),
        2 => format!("{BASE}../{}", sym_text("b", 2)),
        3 => format!("{BASE}a/{}/x", sym_text("b", 2)),
        _ => format!("{BASE}{}", sym_text("b", 2)),
    };
    if sneaky(&uri) {
        return;
    }
    if vp::pick("which", 2) == 0 {
        v.snap_uri = uri;
    } else {
        v.deltas[0].uri = uri;
    }
    h.serve(&v);
    vp::log_clear();
    let e = h.run();
    contained(&h, &norm);
    vp::cover(if e == End::Ret(0) { "published" } else { "refused" });
}
/// Object URIs with free bytes in them.
#[no_mangle]
pub extern "C" fn h_c08_objects() {
    let mut h = H::new();
    guards(&h);
    let host = vp::pick("include host", 2) == 1;
    if host {
        h.c.extra.push("--rsync-include-host".into());
    }
    let norm = c08_norm(&mut h);
    let tpl = vp::pick("template", 9);
    let uri = match tpl {
        6 => format!("rsync://h.example/m/{}", hazard()),
        7 => format!("rsync://h.example/{}", hazard()),
        8 => format!("rsync://h.example/m/{}", repeated("b")),
        0 => format!("rsync://{}/m/x", sym_text("b", 2)),
        1 => format!("rsync://h.example/{}/x", sym_text("b", 2)),
        2 => format!("rsync://h.example/m/{}x", sym_text("b", 3)),
        3 => format!("rsync://h.example/m/a{}x", sym_text("b", 3)),
        4 => format!("rsync://{}m{}", sym_text("b", 2), sym_text("c", 1)),
        _ => format!("rsync://../{}/x", sym_text("b", 2)),
    };
    if sneaky(&uri) {
        return;
    }
    let v = version(SC, 9, 0, vec![obj(&uri, b"content")]);
    h.serve(&v);
    vp::log_clear();
    let e = h.run();
    contained(&h, &norm);
    vp::cover(if e == End::Ret(0) { "published" } else { "refused" });
}
