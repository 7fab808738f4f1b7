//! C17: modification times in the rsync tree; C18: objects that are not what
//! they should be.
use crate::scen::*;
use crate::vp::{self, End};
use crate::world::*;
use std::fs;
use std::os::unix::fs::MetadataExt;

pub static CER: &[u8] = include_bytes!("../data/cer.der");
pub static CRL: &[u8] = include_bytes!("../data/crl.der");
pub static CRLGT: &[u8] = include_bytes!("../data/crlgt.der");
pub static ROA: &[u8] = include_bytes!("../data/roa.der");
pub static MFT: &[u8] = include_bytes!("../data/mft.der");
pub static NOSIGN: &[u8] = include_bytes!("../data/nosign.der");

fn find(b: &[u8], pat: &[u8], from: usize) -> usize {
    let mut i = from;
    while &b[i..i + pat.len()] != pat {
        i += 1;
    }
    i
}
/// Where the digits of the time that counts are, and whether they are of a
/// GeneralizedTime.
fn time_at(kind: u64, b: &[u8]) -> (usize, bool) {
    match kind {
        // notBefore is the first in a certificate, thisUpdate in a CRL
        0 | 1 | 4 => (find(b, &[0x17, 0x0d], 0) + 2, false),
        5 => (find(b, &[0x18, 0x0f], 0) + 2, true),
        _ => {
            let o = find(b, &[0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x09, 0x05], 0);
            (find(b, &[0x17, 0x0d], o) + 2, false)
        }
    }
}
fn dim(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Seconds since 1970 of a time in the proleptic Gregorian calendar.
fn unix(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    let y0 = if m <= 2 { y - 1 } else { y };
    let era = if y0 >= 0 { y0 / 400 } else { (y0 - 399) / 400 };
    let yoe = y0 - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s
}
#[no_mangle]
pub extern "C" fn h_c17_times() {
    let mut h = H::new();
    let kind = vp::pick("object", 6);
    let digits = vp::pick("digits", 4);
    let (src, name) = match kind {
        0 => (CER, "x.cer"),
        1 => (CRL, "x.crl"),
        2 => (ROA, if digits == 2 { ["x.roa", "x.asa", "x", "cer"][vp::pick("name", 4) as usize] } else { "x.roa" }),
        3 => (MFT, "x.mft"),
        4 => (NOSIGN, "x.roa"),
        _ => (CRLGT, "x.crl"),
    };
    let mut b = src.to_vec();
    let (at, gt) = time_at(kind, &b);
    let p = if gt { at + 2 } else { at };
    // which digits are free
    let (lo, hi) = match digits {
        0 => (0, 2),
        1 => (2, 6),
        2 => (6, 12),
        _ => (if gt { 0 } else { 1 }, 4),
    };
    for i in lo..hi {
        b[p + i] = b'0' + vp::u8v(&format!("digit.{i}"), 0, 9);
    }
    let two = |i: usize| (b[p + i] - b'0') as i64 * 10 + (b[p + i + 1] - b'0') as i64;
    let yy = two(0);
    let y = if gt {
        2000 + yy
    } else if yy >= 50 {
        1900 + yy
    } else {
        2000 + yy
    };
    let (m, d, hh, mi, s) = (two(2), two(4), two(6), two(8), two(10));
    let ok = m >= 1 && m <= 12 && d >= 1 && hh < 24 && mi < 60 && s < 60 && d <= dim(y, m);
    let v = version(SA, 7, 0, vec![obj(&format!("rsync://h.example/repo/d/{name}"), &b), obj("rsync://h.example/repo/d/y.txt", b"plain")]);
    h.serve(&v);
    vp::clock(T0);
    let again = digits == 2 && vp::pick("second version", 2) == 1;
    let e = h.run();
    vp::check(e == End::Ret(0), "C17.update-fails");
    if again {
        let v = version(SA, 8, 0, vec![obj(&format!("rsync://h.example/repo/d/{name}"), &b)]);
        h.serve(&v);
        vp::clock(T0 + 4000);
        let e = h.run();
        vp::check(e == End::Ret(0), "C17.update-fails");
    }
    let f = format!("{}/current/d/{name}", h.rsync());
    vp::check(read(&f).as_ref() == Some(&b), "C17.object-content");
    if ok {
        match fs::metadata(&f) {
            Ok(md) => vp::check(md.mtime() == unix(y, m, d, hh, mi, s), "C17.other-time"),
            Err(_) => vp::check(false, "C17.object-missing"),
        }
        vp::cover("time");
    } else {
        vp::cover("no such time");
    }
}
/// Objects with one byte changed, one left out, or the rest missing: decodable
/// or not, they are published.
#[no_mangle]
pub extern "C" fn h_c17_broken() {
    let mut h = H::new();
    let kind = vp::pick("object", 4);
    let (src, name) = [(CRL, "x.crl"), (CER, "x.cer"), (ROA, "x.roa"), (NOSIGN, "x.mft")][kind as usize];
    let mut b = src.to_vec();
    let m = vp::pick("mutation", 3);
    let at = vp::pick(&format!("place in {kind}"), b.len() as u64) as usize;
    match m {
        0 => b[at] = vp::u8v("byte", 0, 255),
        1 => {
            b.remove(at);
        }
        _ => b.truncate(at),
    }
    h.c.cleanup = Some("0".into());
    let v = version(SA, 7, 0, vec![obj(&format!("rsync://h.example/repo/d/{name}"), &b), obj("rsync://h.example/repo/d/y.txt", b"plain")]);
    h.serve(&v);
    vp::clock(T0);
    let e = h.run();
    vp::check(e != End::Panic, "C18.panic");
    vp::check(e == End::Ret(0), "C17.update-fails");
    let f = format!("{}/current/d/{name}", h.rsync());
    vp::check(read(&f).as_ref() == Some(&b), "C17.object-content");
    vp::check(read(&format!("{}/current/d/y.txt", h.rsync())).as_deref() == Some(b"plain"), "C17.object-content");
    vp::cover("published");
}
