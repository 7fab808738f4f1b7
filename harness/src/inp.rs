//! Single updates with arbitrary source content, options and answers.
use crate::scen::*;
use crate::vp::{self, End};
use crate::world::*;
use std::fs;


// ---------------------------------------------------------------- C03: mirror
/// A version whose deltas need not reach its serial, as an odd source may do.
/// Deltas are a function of session and serial.
fn odd_version(h: &mut H, n: &str, sess: &[&'static str], max_nd: u64, max_off: u64) -> Ver {
    let s = sess[if sess.len() == 1 { 0 } else { vp::pick(&format!("{n}.session"), sess.len() as u64) as usize }];
    let serial = vp::u64v(&format!("{n}.serial"), LO, HI);
    for k in &h.known {
        if k.session == s && k.serial == serial {
            return k.clone();
        }
    }
    let nd = vp::pick(&format!("{n}.deltas"), max_nd + 1);
    let off = if nd == 0 || max_off == 0 { 0 } else { vp::u64v(&format!("{n}.unlisted"), 0, max_off) };
    let mut v = version(s, serial, 0, objs(h.idx));
    h.idx += 1;
    for k in 0..nd {
        let d = serial - off - k;
        let body = delta_xml(s, d, &[El::Pub(String::from("rsync://h.example/repo/x"), b"delta".to_vec())]);
        v.deltas.push(Dl { serial: d, uri: format!("{BASE}{s}/{}/delta.xml", num(d)), hash: hash(&body) });
        v.delta_body.push(body);
    }
    expect(&v);
    h.known.push(v.clone());
    v
}
/// `newer`: deltas with a higher serial than this must be there.
fn mirror(h: &H, v: &Ver, max: u64, newer: Option<u64>, id: &str) {
    let p = match h.published(id) {
        Some(p) => p,
        None => return vp::check(false, &format!("{id}.no-notification")),
    };
    let n = &p.n;
    vp::check(n.session_id().to_string() == v.session, &format!("{id}.session"));
    vp::check(n.serial() == v.serial, &format!("{id}.serial"));
    vp::check(n.snapshot().uri().as_str() == v.snap_uri && n.snapshot().hash() == hash(&v.snap), &format!("{id}.snapshot"));
    let got = n.deltas();
    vp::check(got.len() as u64 <= max, &format!("{id}.more-than-maximum"));
    let mut ser: Vec<u64> = vec![];
    for d in got {
        let k = v.deltas.iter().find(|x| x.serial == d.serial());
        match k {
            None => vp::check(false, &format!("{id}.delta-not-listed")),
            Some(k) => {
                vp::check(k.uri == d.uri().as_str() && k.hash == d.hash(), &format!("{id}.delta-differs"));
            }
        }
        ser.push(d.serial());
    }
    for w in ser.windows(2) {
        vp::check(w[0] == w[1] + 1 || w[1] == w[0] + 1, &format!("{id}.not-consecutive"));
    }
    // v.deltas is in descending order
    for (i, d) in v.deltas.iter().enumerate() {
        let needed = match newer {
            None => true,
            Some(s) => d.serial > s,
        };
        if (i as u64) < max && needed {
            vp::check(ser.contains(&d.serial), &format!("{id}.delta-dropped"));
            vp::cover("delta present");
        }
    }
    if !ser.is_empty() && newer.is_some() {
        vp::cover("deltas after update");
    }
}
fn any_max(h: &mut H) -> u64 {
    if vp::pick("maximum given", 2) == 0 {
        return u64::MAX;
    }
    let (s, v) = sym_digits("max_deltas", 1);
    h.c.max_deltas = Some(s);
    v
}
fn c03(n: usize, max_nd: u64, max_off: u64) {
    let mut h = H::new();
    h.c.extra.push("--rsync-disable".into());
    h.c.cleanup = Some("0".into());
    let mut prev: Option<Ver> = None;
    for i in 0..n {
        h.c.max_deltas = None;
        let max = if i == 0 || n < 3 { any_max(&mut h) } else { u64::MAX };
        let v = odd_version(&mut h, &format!("v{i}"), if i == 0 { &[SA] } else { &[SA, SB] }, max_nd, max_off);
        h.serve(&v);
        let e = h.run();
        let newer = match &prev {
            Some(p) if p.session == v.session => Some(p.serial),
            _ => None,
        };
        let same = match newer {
            Some(s) => v.serial <= s,
            None => false,
        };
        if same {
            vp::cover("not newer");
            return;
        }
        vp::check(e == End::Ret(0), "C03.update-fails");
        mirror(&h, &v, max, newer, "C03");
        vp::cover(&format!("mirrored {i}"));
        if i > 0 && newer.is_none() {
            vp::cover("session change");
        }
        prev = Some(v);
    }
}
#[no_mangle]
pub extern "C" fn h_c03_two() {
    c03(2, 3, 0)
}
/// Longer histories with given serials, whose order as text is not that as
/// numbers. The source lists `keep` deltas at most.
#[no_mangle]
pub extern "C" fn h_c03_long() {
    let mut h = H::new();
    h.c.extra.push("--rsync-disable".into());
    h.c.cleanup = Some("0".into());
    let start = [5, 97, 999_999_999][vp::pick("first serial", 3) as usize];
    let keep = [2, 9][vp::pick("listed", 2) as usize];
    let step = 1 + vp::pick("step", 2);
    let m = vp::pick("maximum given", 3);
    let max = if m == 0 { u64::MAX } else { 2 * m };
    if m > 0 {
        h.c.max_deltas = Some(num(max));
    }
    let mut before: Vec<u64> = vec![];
    let mut prev = None;
    for i in 0..5 {
        let serial = start + i * step;
        let nd = if serial + 1 - start < keep { serial + 1 - start } else { keep };
        let v = version(SA, serial, nd, objs(i as usize));
        expect(&v);
        h.serve(&v);
        vp::clock(T0 + 10 * i);
        let e = h.run();
        vp::check(e == End::Ret(0), "C03.update-fails");
        mirror(&h, &v, max, prev, "C03");
        let now: Vec<u64> = h.published("C03").unwrap().n.deltas().iter().map(|d| d.serial()).collect();
        for (k, d) in v.deltas.iter().enumerate() {
            if (k as u64) < max && before.contains(&d.serial) {
                vp::check(now.contains(&d.serial), "C03.known-delta-dropped");
                vp::cover("delta kept");
            }
        }
        before = now;
        prev = Some(serial);
    }
    vp::cover("mirrored");
}
/// Sources that stop listing deltas for their last serials.
#[no_mangle]
pub extern "C" fn h_c03_odd() {
    c03(2, 2, 2)
}
#[no_mangle]
pub extern "C" fn h_c03_three() {
    c03(3, 2, 1)
}

// ---------------------------------------------------------------- C04: forward only
fn c04(nd: u64, order: bool) {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = h.any("v1", &[SA], &[1]);
    vp::clock(T0);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let before = snap(&h, "C04");
    vp::clock(T0 + 10);
    let max = any_max(&mut h);
    let sess = [SA, SB][vp::pick("v2.session", 2) as usize];
    let serial = vp::u64v("v2.serial", LO, HI);
    let mut v = version(sess, serial, 0, objs(1));
    let mut ds: Vec<u64> = vec![];
    for k in 0..nd {
        ds.push(vp::u64v(&format!("v2.delta{k}"), LO, HI));
    }
    if !order {
        for w in ds.windows(2) {
            vp::assume(w[0] > w[1]);
        }
    }
    for d in &ds {
        let body = delta_xml(sess, *d, &[El::Pub(String::from("rsync://h.example/repo/x"), b"delta".to_vec())]);
        v.deltas.push(Dl { serial: *d, uri: format!("{BASE}{sess}/{}/delta.xml", num(*d)), hash: hash(&body) });
        v.delta_body.push(body);
    }
    h.serve(&v);
    let e = h.run();
    // the newest `max` of them
    for i in 0..ds.len() {
        for j in i + 1..ds.len() {
            if ds[j] > ds[i] {
                ds.swap(i, j);
            }
        }
    }
    let n = if max < nd { max } else { nd };
    ds.truncate(vp::conc(n) as usize);
    let gap = ds.windows(2).any(|w| w[0] != w[1] + 1);
    if gap {
        vp::cover("gap");
        // the same version again, listed with a gap: may be either
        if sess != SA || serial != v1.serial {
            vp::check(e != End::Ret(0), "C04.gap-accepted");
        }
        before.unchanged(&h, "C04.gap");
        return;
    }
    if sess == SA {
        if serial < v1.serial {
            vp::cover("lower");
            vp::check(e != End::Ret(0), "C04.lower-serial-accepted");
            before.unchanged(&h, "C04.lower");
            return;
        }
        if serial == v1.serial {
            vp::cover("equal");
            vp::check(e == End::Ret(0), "C04.same-version-fails");
            before.unchanged(&h, "C04.same");
            return;
        }
        vp::cover("higher");
    } else {
        vp::cover("other session");
    }
    vp::check(e == End::Ret(0), "C04.update-fails");
    let p = h.published("C04");
    vp::check(p.is_some(), "C04.no-notification");
    let n = p.unwrap().n;
    vp::check(n.session_id().to_string() == sess && n.serial() == serial, "C04.not-published");
    vp::check(n.snapshot().hash() == hash(&v.snap), "C04.other-snapshot");
    vp::check(h.current_is(&v), "C04.other-rsync-tree");
}
#[no_mangle]
pub extern "C" fn h_c04_two() {
    c04(2, true)
}
#[no_mangle]
pub extern "C" fn h_c04_three() {
    c04(3, false)
}
#[no_mangle]
pub extern "C" fn h_c04_shuffled() {
    c04(3, true)
}
/// The source says that nothing was modified.
#[no_mangle]
pub extern "C" fn h_c04_unmodified() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    let mut last = v1;
    if vp::pick("updated once", 2) == 1 {
        last = h.any("v2", &[SA, SB], &[1]);
        h.serve(&last);
        let e = h.run();
        vp::assume(e == End::Ret(0));
    }
    let before = snap(&h, "C04");
    vp::clock(T0 + 4000);
    let v3 = h.any("v3", &[SA, SB], &[1]);
    h.serve(&v3);
    w().bad_get = 0;
    w().bad_kind = 1;
    let e = h.run();
    vp::check(e == End::Ret(0), "C04.not-modified-fails");
    before.unchanged(&h, "C04.not-modified");
    vp::cover("not modified");
    let _ = last;
}

// ---------------------------------------------------------------- C02: verified content only
fn gets() -> u64 {
    let mut n = 0;
    for i in 0..vp::log_len() {
        if vp::log(i).op == vp::GET {
            n += 1;
        }
    }
    n
}
fn stage(h: &H, uri: &str, body: &[u8], what: &str) {
    let p = format!("{}/pre-validate-staging/{}", h.state(), &uri[BASE.len()..]);
    let b = match vp::pick(&format!("staged {what}"), 4) {
        0 => return,
        1 => body.to_vec(),
        2 => b"left over".to_vec(),
        _ => body[..body.len() / 2].to_vec(),
    };
    let d = p.rsplit_once('/').unwrap().0;
    let _ = fs::create_dir_all(d);
    let _ = fs::write(&p, b);
}
/// Everything of `v` that is listed is published with its content.
fn complete(h: &H, v: &Ver, id: &str) {
    let p = match h.published(id) {
        Some(p) => p.n,
        None => return vp::check(false, &format!("{id}.no-notification")),
    };
    vp::check(p.serial() == v.serial && p.session_id().to_string() == v.session, &format!("{id}.other-version"));
    vp::check(read(&format!("{}/{}", h.rrdp(), &v.snap_uri[BASE.len()..])).as_ref() == Some(&v.snap), &format!("{id}.snapshot-bytes"));
    vp::check(h.current_is(v), &format!("{id}.rsync-tree"));
}
fn earlier(h: &mut H) -> Option<Ver> {
    if vp::pick("earlier version published", 2) == 0 {
        return None;
    }
    let v1 = h.any("v1", &[SA], &[1]);
    h.serve(&v1);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    Some(v1)
}
fn next(h: &mut H, v1: &Option<Ver>, nds: &[u64]) -> Ver {
    let v2 = h.any("v2", &[SA, SB], nds);
    if let Some(v1) = v1 {
        vp::assume(v2.session != v1.session || v2.serial > v1.serial);
    }
    v2
}
/// Left-over staged files of any sort, and a source that answers well.
#[no_mangle]
pub extern "C" fn h_c02_staged() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = earlier(&mut h);
    let v2 = next(&mut h, &v1, &[2]);
    h.serve(&v2);
    let which = vp::pick("which", 3) as usize;
    let (uri, body) = if which == 0 { (&v2.snap_uri, &v2.snap) } else { (&v2.deltas[which - 1].uri, &v2.delta_body[which - 1]) };
    let mut b = body.clone();
    let n = b.len();
    match vp::pick("left over", 10) {
        // one byte is any other
        0 => b[0] = vp::u8v("byte", 0, 255),
        1 => b[n / 2] = vp::u8v("byte", 0, 255),
        2 => b[n - 1] = vp::u8v("byte", 0, 255),
        // one or two more
        3 => b.push(vp::u8v("byte", 0, 255)),
        4 => {
            b.push(vp::u8v("byte", 0, 255));
            b.push(vp::u8v("byte2", 0, 255));
        }
        5 => b.insert(0, vp::u8v("byte", 0, 255)),
        // cut off
        6 => b.truncate(n - 1),
        // well formed, but of other content
        7 => b = if which == 0 { snapshot_xml(v2.session, v2.serial, &objs(3)) } else { delta_xml(v2.session, v2.deltas[which - 1].serial, &[]) },
        8 => {
            b = if which == 0 { snapshot_xml(v2.session, v2.serial, &objs(3)) } else { delta_xml(v2.session, v2.deltas[which - 1].serial, &[]) };
            b.push(b'\n');
        }
        _ => b = vec![],
    }
    let p = format!("{}/pre-validate-staging/{}", h.state(), &uri[BASE.len()..]);
    let _ = fs::create_dir_all(p.rsplit_once('/').unwrap().0);
    let _ = fs::write(&p, b);
    vp::clock(T0 + 100);
    let e = h.run();
    vp::check(e == End::Ret(0), "C02.good-update-fails");
    complete(&h, &v2, "C02");
    vp::cover("published");
}
#[no_mangle]
pub extern "C" fn h_c02_bad() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = earlier(&mut h);
    let v2 = next(&mut h, &v1, &[2]);
    h.serve(&v2);
    stage(&h, &v2.snap_uri, &v2.snap, "snapshot");
    stage(&h, &v2.deltas[0].uri, &v2.delta_body[0], "delta");
    let before = snap(&h, "C02");
    let bad = vp::u64v("bad_get", 0, 4);
    let kind = vp::u64v("bad_kind", 0, 9);
    w().bad_get = bad;
    w().bad_kind = kind;
    vp::log_clear();
    vp::clock(T0 + 100);
    let e = h.run();
    w().bad_get = u64::MAX;
    if bad >= gets() {
        vp::check(e == End::Ret(0), "C02.good-update-fails");
        complete(&h, &v2, "C02");
        vp::cover("published");
    } else if bad == 0 && kind == 1 && v1.is_some() {
        vp::check(e == End::Ret(0), "C02.not-modified-fails");
        before.unchanged(&h, "C02");
    } else {
        vp::check(e != End::Ret(0), "C02.bad-answer-accepted");
        before.unchanged(&h, "C02");
        vp::cover("refused");
    }
}
/// A document that has the listed hash, but ...
fn mangle(kind: u64, b: &[u8], serial: u64, sess: &'static str) -> Vec<u8> {
    let s = String::from_utf8(b.to_vec()).unwrap();
    match kind {
        0 => b.to_vec(),
        1 => b[..b.len() / 2].to_vec(),
        2 => Vec::new(),
        3 => s.replace("</publish>", "!</publish>").into_bytes(),
        4 => s.replace("rsync://h.example/repo/", "http://h.example/").into_bytes(),
        5 => s.replace("xmlns=\"http://www.ripe.net/rpki/rrdp\"", "xmlns=\"http://www.ripe.net/other\"").into_bytes(),
        6 => s.replace("<publish", "<punish").into_bytes(),
        7 => b"<html></html>".to_vec(),
        8 => s.replace("version=\"1\"", "version=\"2\"").into_bytes(),
        _ => notification_xml(sess, serial, NOTIF, &hash(b), &[]),
    }
}
/// Snapshot or delta with the right hash that cannot be parsed.
#[no_mangle]
pub extern "C" fn h_c02_unparsable() {
    let mut h = H::new();
    h.c.cleanup = Some("0".into());
    let v1 = earlier(&mut h);
    let mut v2 = next(&mut h, &v1, &[2]);
    let which = vp::pick("which", 3);
    let kind = vp::pick("mangled", 10);
    let ok = if which == 0 {
        v2.snap = mangle(kind, &v2.snap, v2.serial, v2.session);
        rpki::rrdp::Snapshot::parse(v2.snap.as_slice()).is_ok()
    } else {
        let k = which as usize - 1;
        let b = mangle(kind, &v2.delta_body[k], v2.deltas[k].serial, v2.session);
        v2.deltas[k].hash = hash(&b);
        v2.delta_body[k] = b;
        rpki::rrdp::Delta::parse(v2.delta_body[k].as_slice()).is_ok()
    };
    h.serve(&v2);
    let before = snap(&h, "C02");
    vp::log_clear();
    vp::clock(T0 + 100);
    let e = h.run();
    // was it asked for?
    let mut needed = which == 0;
    for i in 0..vp::log_len() {
        let ev = vp::log(i);
        if ev.op == vp::GET && which > 0 && ev.a == v2.deltas[which as usize - 1].uri {
            needed = true;
        }
    }
    if ok || !needed {
        vp::check(e == End::Ret(0), "C02.good-update-fails");
        complete(&h, &v2, "C02");
        vp::cover("published");
    } else {
        vp::check(e != End::Ret(0), "C02.unparsable-accepted");
        before.unchanged(&h, "C02");
        vp::cover("refused");
    }
}
