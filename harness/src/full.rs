//! C11, C10: runs with TALs, on a repository of real objects.
use crate::ca::*;
use crate::conf::events;
use crate::scen::*;
use crate::val::{diff, is, kept_in_state};
use crate::vp::{self, End};
use crate::world::*;

/// What is wrong with the content of the repository, 0 is nothing.
pub const WRONG: u64 = 5;
/// A trust anchor (unless elsewhere) and a CA below it, ROAs by number.
fn content(elsewhere: bool, wrong: u64, n: u64) -> Vec<Obj> {
    let (ta, ch) = cas(elsewhere);
    let mut cp = Point::new(&ch);
    for i in 0..2 {
        let name = format!("{}.roa", ["a", "b", "c", "d"][(n + i) as usize]);
        cp.add(&name, roa(&ch, &name, ok(20 + n + i)));
    }
    match wrong {
        0 => (),
        // listed but not there
        1 => cp.objs[0].2 = false,
        2 => cp.revoked.push(20 + n),
        // without manifest; CRL not the one that is listed
        3 => cp.fault = 1,
        _ => cp.fault = 8,
    }
    let mut f = cp.files();
    if !elsewhere {
        f.extend(parent(&ta, &ch));
    }
    f
}
fn parent(ta: &Ca, ch: &Ca) -> Vec<Obj> {
    let mut tp = Point::new(ta);
    tp.add("c.cer", ca_cert(ta, ch, ok(20)));
    tp.files()
}
fn cas(elsewhere: bool) -> (Ca, Ca) {
    let (mut ta, ch) = (ta(), child());
    if elsewhere {
        ta.notify = OTHER.into();
    }
    (ta, ch)
}
/// What is served besides the source repository.
fn rest(elsewhere: bool, tree: bool) {
    let (mut ta, ch) = cas(elsewhere);
    if !tree {
        // nothing of the source repository is in the tree
        ta.notify = OTHER.into();
        let mut tp = Point::new(&ta);
        tp.add("x.roa", roa(&ta, "x.roa", ok(21)));
        serve_at(OTHER, 3, tp.files());
    } else if elsewhere {
        serve_at(OTHER, 3, parent(&ta, &ch));
    }
    serve(TAURI, &ta_cert(&ta, ok(1)));
}
/// An update to v2 with TALs, after an earlier version (or none) that was
/// published with or without TALs, some time ago.
#[no_mangle]
pub extern "C" fn h_c11_update() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let r = vp::root();
    std::fs::write(format!("{r}/ta.tal"), tal(TAURI, 0)).unwrap();
    let elsewhere = vp::pick("trust anchor elsewhere", 2) == 1;
    // none; without TALs; with TALs; with TALs and rejected
    let earlier = vp::pick("earlier version", 4);
    let base = vp::u64v("serial", LO, HI);
    let plain = h.c.clone();
    let mut v1 = None;
    vp::clock(T0);
    if earlier > 0 {
        let wrong = if earlier == 3 { 1 } else { vp::pick("wrong.1", 3) };
        let v = version(SA, base, 0, content(elsewhere, wrong, 0));
        rest(elsewhere, true);
        v.serve();
        if earlier > 1 {
            tals(&mut h, earlier == 3, false);
        }
        let e = h.run();
        if earlier == 3 {
            vp::check(e != End::Ret(0), "C11.rejected-content-accepted");
        } else {
            vp::check(e == End::Ret(0), "C11.update-fails");
        }
        v1 = Some(v);
        h.c = plain;
    }
    // the time is saved as text
    vp::clock(T0 + if earlier > 0 { [0, 1800, 3601][vp::pick("time", 3) as usize] } else { 0 });
    let wrong = vp::pick("wrong", WRONG);
    let o = content(elsewhere, wrong, 1);
    let how = if earlier > 0 { vp::pick("how", 4) } else { 0 };
    let mut v2 = match how {
        0 => version(SB, base, 0, o),
        _ => version(SA, base + 1, 0, o),
    };
    // with a delta, one that leads to something else
    if how > 1 {
        let v1 = v1.as_ref().unwrap();
        let to = if how == 2 { v2.objs.clone() } else { content(elsewhere, (wrong == 0) as u64, 2) };
        let body = delta_xml(SA, base + 1, &diff(&v1.objs, &to));
        v2.deltas.push(Dl { serial: base + 1, uri: format!("{BASE}{SA}/{}/delta.xml", num(base + 1)), hash: hash(&body) });
        v2.delta_body.push(body);
    }
    let (reject, offline) = (vp::pick("reject", 2) == 1, vp::pick("offline", 2) == 1);
    tals(&mut h, reject, offline);
    unserve();
    rest(elsewhere, true);
    v2.serve();
    vp::log_clear();
    let before = snap(&h, "C11");
    let e = h.run();
    // without the trust anchor's own data the tree is out of reach
    let unseen = elsewhere && offline && earlier != 2;
    judged(&h, e, &v2, reject, wrong != 0, unseen, before, "C11");
}
fn tals(h: &mut H, reject: bool, offline: bool) {
    let r = vp::root();
    h.c.extra.push("--tal".into());
    h.c.extra.push(format!("{r}/ta.tal"));
    if reject {
        h.c.extra.push("--tal-reject-invalid".into());
    }
    if offline {
        h.c.extra.push("--offline-validation".into());
    }
    h.c.extra.push("--".into());
}
fn judged(h: &H, e: End, v: &Ver, reject: bool, wrong: bool, unseen: bool, before: Snap, id: &str) {
    vp::check(e == End::Ret(0) || e == End::Ret(1), &format!("{id}.panic"));
    if reject && (wrong || unseen) {
        vp::check(e != End::Ret(0), &format!("{id}.rejected-content-accepted"));
        before.unchanged(h, id);
        vp::cover(if unseen { "rejected unseen" } else { "rejected" });
    } else {
        vp::check(e == End::Ret(0), &format!("{id}.update-fails"));
        let p = h.published(id);
        vp::check(p.is_some(), &format!("{id}.no-notification"));
        let p = p.unwrap().n;
        vp::check(p.serial() == v.serial && p.session_id().to_string() == v.session, &format!("{id}.not-published"));
        vp::check(h.current_is(v), &format!("{id}.rsync-tree"));
        let s = read(&format!("{}/rrdp-state.json", h.state())).unwrap_or_default();
        match kept_in_state(&s, NOTIF) {
            None => vp::check(false, &format!("{id}.no-data")),
            Some(k) => vp::check(is(&k, v), &format!("{id}.other-objects")),
        }
        vp::cover(if wrong || unseen { "reported" } else { "passed" });
    }
}
/// Other settings than in the run before: which of its data counts.
#[no_mangle]
pub extern "C" fn h_c11_settings() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let r = vp::root();
    let plain = h.c.clone();
    std::fs::write(format!("{r}/ta.tal"), tal(TAURI, 0)).unwrap();
    let base = vp::u64v("serial", LO, HI);
    vp::clock(T0);
    let wrong = [vp::pick("wrong.0", 2), vp::pick("wrong.1", 2), vp::pick("wrong.2", 2)];
    let v = version(SA, base, 0, content(false, wrong[0], 0));
    rest(false, true);
    v.serve();
    tals(&mut h, false, false);
    vp::check(h.run() == End::Ret(0), "C11.update-fails");
    // in between: without TALs, without the staging area, another RRDP
    // directory, a run that fails
    let between = vp::pick("between", 5);
    let v = version(SA, base + 1, 0, content(false, wrong[1], 1));
    h.c = plain.clone();
    unserve();
    rest(false, true);
    v.serve();
    let mut ok = true;
    match between {
        0 => (),
        1 => std::fs::remove_dir_all(format!("{}/pre-validate-staging", h.state())).unwrap_or(()),
        2 => h.c.rrdp = Some(format!("{r}/rrdp2")),
        3 => {
            tals(&mut h, false, true);
            serve_status(&v.snap_uri, 404);
            ok = false;
        }
        _ => tals(&mut h, false, false),
    }
    let e = h.run();
    vp::check((e == End::Ret(0)) == ok, "C11.update-fails");
    let rrdp = h.c.rrdp.clone();
    h.c = plain;
    h.c.rrdp = rrdp;
    let v = version(SA, base + 2, 0, content(false, wrong[2], 2));
    tals(&mut h, true, vp::pick("offline", 2) == 1);
    unserve();
    rest(false, true);
    v.serve();
    let before = snap(&h, "C11");
    let e = h.run();
    judged(&h, e, &v, true, wrong[2] != 0, false, before, "C11");
}
/// Validation with TALs, together with scripts.
#[no_mangle]
pub extern "C" fn h_c10_tals() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let r = vp::root();
    std::fs::write(format!("{r}/ta.tal"), tal(TAURI, 0)).unwrap();
    let base = vp::u64v("serial", LO, HI);
    vp::clock(T0);
    rest(false, true);
    if vp::pick("earlier version published", 2) == 1 {
        let v = version(SA, base, 0, content(false, 0, 0));
        v.serve();
        let e = h.run();
        vp::assume(e == End::Ret(0));
    }
    let wrong = vp::pick("wrong", WRONG);
    // the tree may have nothing of this repository; its trust anchor
    // certificate may be missing, of another key, expired, broken
    let tree = vp::pick("tree", 7);
    let v = version(SA, base + 1, 0, content(false, wrong, 1));
    unserve();
    rest(false, tree != 1);
    v.serve();
    let ta = ta();
    match tree {
        0 | 1 => (),
        2 => serve_status(TAURI, 404),
        3 => serve(TAURI, &ta_cert(&Ca { key: 2, ..ta.clone() }, ok(1))),
        4 => serve(TAURI, &ta_cert(&ta, Val { to: T0 - 1, ..ok(1) })),
        5 => serve(TAURI, &ta_cert(&ta, Val { forged: true, ..ok(1) })),
        _ => std::fs::write(format!("{r}/ta.tal"), b"no TAL").unwrap(),
    }
    let reject = vp::pick("reject", 2) == 1;
    h.c.extra.push("--pre-validate=/opt/check0".into());
    let status = vp::u64v("status", 0, 265);
    vp::assume(status < 256 || status == 256 + 9);
    vp::scripts(&[status]);
    tals(&mut h, reject, false);
    let before = snap(&h, "C10");
    vp::log_clear();
    let e = h.run();
    let ran = events().iter().any(|ev| ev.op == vp::EXEC);
    if tree > 1 {
        // nothing can be said about the repository
        vp::check(e == End::Ret(0) || e == End::Ret(1), "C10.panic");
        vp::check(!reject || e != End::Ret(0), "C10.rejected-content-accepted");
        if e != End::Ret(0) {
            before.unchanged(&h, "C10");
        }
        vp::cover("no trust anchor");
        return;
    }
    vp::check(ran || reject && (wrong != 0 || tree == 1), "C10.script-not-run");
    judged(&h, e, &v, reject, wrong != 0 || status != 0, tree == 1, before, "C10");
}
