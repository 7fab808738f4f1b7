//! C18: whatever the source serves and whatever the options say, a run ends
//! with success or an error.
use crate::scen::*;
use crate::vp::{self, End};
use crate::world::*;
use rpki::rrdp::NotificationFile;

fn setup(h: &mut H) -> Option<Ver> {
    h.c.cleanup = Some("0".into());
    vp::clock(T0);
    if vp::pick("earlier version published", 2) == 0 {
        return None;
    }
    let v = h.ver(SA, 6, 1);
    h.serve(&v);
    let e = h.run();
    vp::assume(e == End::Ret(0));
    vp::clock(T0 + 100);
    Some(v)
}
/// `b` with one place changed: a byte is anything else, one is inserted, one is
/// left out, or the rest is missing.
fn mutate(what: &str, b: &[u8], kinds: u64) -> Vec<u8> {
    let k = vp::pick("mutation", kinds);
    let at = vp::pick(&format!("place in {what}"), b.len() as u64) as usize;
    let mut v = b.to_vec();
    match k {
        0 => v[at] = vp::u8v("byte", 0, 255),
        1 => v.insert(at, vp::u8v("byte", 0, 255)),
        2 => {
            v.remove(at);
        }
        _ => v.truncate(at),
    }
    v
}
fn ends(e: End) {
    vp::check(e != End::Panic, "C18.panic");
    vp::check(e != End::Crash, "C18.crash");
    vp::cover(if e == End::Ret(0) { "success" } else { "error" });
}
/// After success, what the source's notification says is what is published.
fn told(h: &H, notif: &[u8], e: End) {
    ends(e);
    if e != End::Ret(0) {
        return;
    }
    let n = match NotificationFile::parse(notif) {
        Ok(n) => n,
        Err(_) => return vp::check(false, "C18.success-with-unparsable-notification"),
    };
    match h.published("C18") {
        None => vp::check(false, "C18.success-without-publishing"),
        Some(p) => {
            vp::check(p.n.session_id() == n.session_id() && p.n.serial() == n.serial(), "C18.success-without-update");
        }
    }
}
/// The notification file with any one byte changed.
#[no_mangle]
pub extern "C" fn h_c18_notification() {
    let mut h = H::new();
    setup(&mut h);
    let v = h.ver(SA, 7, 1);
    h.serve(&v);
    let n = mutate("notification", &v.notification(), 4);
    serve(NOTIF, &n);
    let e = h.run();
    told(&h, &n, e);
}
/// The snapshot or a delta with any one byte changed, listed with its hash.
#[no_mangle]
pub extern "C" fn h_c18_content() {
    let mut h = H::new();
    setup(&mut h);
    let mut v = h.ver(SA, 7, 2);
    if vp::pick("which", 2) == 0 {
        v.snap = mutate("snapshot", &v.snap, 4);
    } else {
        v.delta_body[0] = mutate("delta", &v.delta_body[0], 4);
        v.deltas[0].hash = hash(&v.delta_body[0]);
    }
    h.serve(&v);
    let e = h.run();
    told(&h, &v.notification(), e);
}
const NUMBERS: [&str; 18] = [
    "0", "1", "7", "8", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-1", "+7", "007", " 7", "7 ", "",
    "0x7", "7.0", "99999999999999999999999999999999999999999", "\u{0667}",
];
/// Numbers in the notification file that are not what one would expect.
#[no_mangle]
pub extern "C" fn h_c18_numbers() {
    let mut h = H::new();
    setup(&mut h);
    let v = h.ver(SA, 7, 2);
    h.serve(&v);
    let n = String::from_utf8(v.notification()).unwrap();
    let x = NUMBERS[vp::pick("number", 18) as usize];
    let n = match vp::pick("where", 5) {
        0 => n.replacen("serial=\"7\"", &format!("serial=\"{x}\""), 1),
        1 => n.replace("serial=\"7\"", &format!("serial=\"{x}\"")),
        2 => n.replace("serial=\"6\"", &format!("serial=\"{x}\"")),
        3 => n.replace("<delta serial=\"7\"", &format!("<delta serial=\"{x}\"")),
        _ => n.replace("serial=\"7\"", &format!("serial=\"{x}\"")).replace("serial=\"6\"", &format!("serial=\"{x}\"")),
    };
    let n = n.into_bytes();
    serve(NOTIF, &n);
    let e = h.run();
    told(&h, &n, e);
}
/// Extreme serials, in documents that agree on them.
#[no_mangle]
pub extern "C" fn h_c18_extreme() {
    let mut h = H::new();
    let first = setup(&mut h);
    let s = [0, 1, 2, u64::MAX - 1, u64::MAX, 1 << 63, (1 << 63) - 1][vp::pick("serial", 7) as usize];
    let nd = vp::pick("deltas", 3);
    let max = vp::pick("max", 3);
    if max > 0 {
        h.c.max_deltas = Some(num(max - 1));
    }
    let nd = if s < nd { s } else { nd };
    let v = h.ver([SA, SB][vp::pick("session", 2) as usize], s, nd);
    h.serve(&v);
    let e = h.run();
    ends(e);
    let lower = v.session == SA && first.is_some() && s < 6;
    vp::check((e == End::Ret(0)) != lower, "C18.extreme-serial");
    if e == End::Ret(0) {
        told(&h, &v.notification(), e);
        // and then on to a new session and back
        let v3 = h.ver(SC, 3, 1);
        h.serve(&v3);
        let e = h.run();
        told(&h, &v3.notification(), e);
        h.serve(&v);
        let e = h.run();
        told(&h, &v.notification(), e);
        vp::check(e == End::Ret(0), "C18.extreme-serial");
    }
}
const OPTIONS: [&str; 16] = [
    "0", "1", "-1", "-0", "+1", "3600", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "abc", "", "1.5",
];
/// Any numeric option, at any verbosity, for a few updates.
#[no_mangle]
pub extern "C" fn h_c18_options() {
    let mut h = H::new();
    h.c.verb = ["", "-v", "-vv", "-vvv", "--quiet"][vp::pick("verbosity", 5) as usize];
    let o = ["--cleanup-after", "--rrdp-max-deltas", "--rrdp-notify-delay"][vp::pick("option", 3) as usize];
    let x = OPTIONS[vp::pick("value", 16) as usize];
    if o == "--rrdp-notify-delay" && x.len() > 10 {
        // a delay longer than any life
        return;
    }
    h.c.extra.push(format!("{o}={x}"));
    let mut ok = 0;
    for (i, (s, ser)) in [(SA, 5u64), (SA, 6), (SB, 2), (SA, 9)].iter().enumerate() {
        let v = h.ver(s, *ser, 2);
        h.serve(&v);
        vp::clock(T0 + 4000 * i as u64);
        let e = h.run();
        told(&h, &v.notification(), e);
        ok += (e == End::Ret(0)) as u64;
    }
    // an option is either refused or works
    vp::check(ok == 0 || ok == 4, "C18.option-works-sometimes");
    let plain = !x.is_empty() && x.len() < 5 && x.bytes().all(|b| b.is_ascii_digit());
    vp::check(ok == 4 || !plain, "C18.usual-value-refused");
}
