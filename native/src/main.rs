//! Native replay: runs a harness entry with concrete inputs as ordinary
//! compiled code on the real file system, below a scratch directory.
//!
//! The libc calls that touch files are interposed: they count operations like
//! the engine's model does (so that crash and fault points mean the same),
//! record events, and refuse to change anything outside the scratch directory.
#![allow(static_mut_refs, non_upper_case_globals, clippy::missing_safety_doc)]
use libc::*;
use std::arch::asm;
use std::collections::HashMap;

const NEV: usize = 6000;
const PL: usize = 500;
#[repr(C)]
struct Event {
    op: u32,
    x: u64,
    al: u32,
    bl: u32,
    a: [u8; PL],
    b: [u8; PL],
}
#[repr(C)]
struct Shared {
    nev: usize,
    armed: bool,
    opn: u64,
    fopn: u64,
    crash_at: u64,
    torn: u64,
    fault_at: u64,
    fault_kind: u64,
    clock: u64,
    lock_fd: i32,
    nscript: usize,
    scripts: [u64; 64],
    nscripts: usize,
    kind: u32,
    ret: i64,
    denied: u32,
    ev: [Event; NEV],
}
static mut SH: *mut Shared = std::ptr::null_mut();
static mut ROOT: String = String::new();
static mut XDEV: String = String::new();
static mut INPUTS: Option<HashMap<String, u64>> = None;
static mut NAMES: Option<HashMap<String, u32>> = None;
static mut FAILED: u32 = 0;
static mut LOCKFD: i32 = -1;
static mut VERBOSE: bool = false;

fn sh() -> Option<&'static mut Shared> {
    unsafe { SH.as_mut() }
}

// ------------------------------------------------------------ raw system calls
unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
#[derive(Clone, Copy, PartialEq)]
enum T {
    None,
    File(i64),
    Dir,
    Link,
}
unsafe fn kind_at(dfd: i32, p: *const c_char, follow: bool) -> T {
    let mut s: stat64 = std::mem::zeroed();
    let r = sc(262, dfd as usize, p as usize, &mut s as *mut _ as usize, if follow { 0 } else { 0x100 }, 0);
    if r < 0 {
        return T::None;
    }
    match s.st_mode & S_IFMT {
        S_IFDIR => T::Dir,
        S_IFLNK => T::Link,
        _ => T::File(s.st_size),
    }
}
fn cz(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    v.push(0);
    v
}
unsafe fn bytes(p: *const c_char) -> &'static [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}
unsafe fn fd_path(fd: i32) -> Vec<u8> {
    let p = format!("/proc/self/fd/{fd}\0");
    let mut b = vec![0u8; 4096];
    let r = sc(89, p.as_ptr() as usize, b.as_mut_ptr() as usize, 4096, 0, 0);
    if r < 0 {
        return b"?".to_vec();
    }
    b.truncate(r as usize);
    b
}
/// Canonical path of a directory.
unsafe fn canon_dir(dfd: i32, p: &[u8]) -> Option<Vec<u8>> {
    let p = if p.is_empty() { b".".to_vec() } else { p.to_vec() };
    let r = sc(257, dfd as usize, cz(&p).as_ptr() as usize, (O_PATH | O_DIRECTORY | O_CLOEXEC) as usize, 0, 0);
    if r < 0 {
        return None;
    }
    let s = fd_path(r as i32);
    sc(3, r as usize, 0, 0, 0, 0);
    Some(s)
}
/// Canonical directory of the path plus its last component; a final symlink is
/// followed when `follow`.
unsafe fn full(dfd: i32, p: *const c_char, follow: bool) -> Option<Vec<u8>> {
    let mut p = bytes(p).to_vec();
    let mut dfd = dfd;
    for _ in 0..10 {
        while p.len() > 1 && p.ends_with(b"/") {
            p.pop();
        }
        let (d, n) = match p.iter().rposition(|c| *c == b'/') {
            Some(0) => (b"/".to_vec(), p[1..].to_vec()),
            Some(k) => (p[..k].to_vec(), p[k + 1..].to_vec()),
            None => (b".".to_vec(), p.clone()),
        };
        if n == b".." || n == b"." || n.is_empty() {
            return canon_dir(dfd, &p);
        }
        let mut c = canon_dir(dfd, &d)?;
        if c != b"/" {
            c.push(b'/');
        }
        let dir = c.clone();
        c.extend_from_slice(&n);
        if follow && kind_at(AT_FDCWD, cz(&c).as_ptr() as *const c_char, false) == T::Link {
            let mut b = vec![0u8; 4096];
            let r = sc(89, cz(&c).as_ptr() as usize, b.as_mut_ptr() as usize, 4096, 0, 0);
            b.truncate(r.max(0) as usize);
            p = if b.starts_with(b"/") {
                b
            } else {
                let mut x = dir;
                x.extend_from_slice(&b);
                x
            };
            dfd = AT_FDCWD;
            continue;
        }
        return Some(c);
    }
    None
}
/// Changes are only ever made below the scratch directory.
unsafe fn denied(p: &[u8]) -> bool {
    let r = ROOT.as_bytes();
    if r.is_empty() {
        return false;
    }
    let ok = p.len() > r.len() && p.starts_with(r) && p[r.len()] == b'/';
    if !ok {
        if let Some(s) = sh() {
            s.denied += 1;
        }
    }
    !ok
}
fn event(op: u32, a: &[u8], b: &[u8], x: u64) {
    if let Some(s) = sh() {
        if s.nev < NEV {
            let e = &mut s.ev[s.nev];
            e.op = op | if s.lock_fd >= 0 { 0x100 } else { 0 };
            e.x = x;
            e.al = a.len().min(PL) as u32;
            e.bl = b.len().min(PL) as u32;
            e.a[..e.al as usize].copy_from_slice(&a[..e.al as usize]);
            e.b[..e.bl as usize].copy_from_slice(&b[..e.bl as usize]);
            s.nev += 1;
        }
        if unsafe { VERBOSE } {
            let m = format!("[ev] {op:#x} {} {} {x}\n", String::from_utf8_lossy(a), String::from_utf8_lossy(b));
            unsafe { sc(1, 2, m.as_ptr() as usize, m.len(), 0, 0) };
        }
    }
}
enum G {
    Go,
    Torn,
    Err(i32),
    TornErr(i32),
}
fn gate(mutating: bool, is_write: bool) -> G {
    let s = match sh() {
        Some(s) if s.armed => s,
        _ => return G::Go,
    };
    let mut g = G::Go;
    if unsafe { VERBOSE } {
        let m = format!("[gate] {} {} {}\n", s.opn, s.fopn, mutating);
        unsafe { sc(1, 2, m.as_ptr() as usize, m.len(), 0, 0) };
    }
    if mutating && s.crash_at == s.opn {
        if is_write && s.torn != 0 {
            s.opn += 1;
            return G::Torn;
        }
        crash();
    }
    if s.fault_at == s.fopn {
        let er = match s.fault_kind {
            1 => ENOSPC,
            2 => EACCES,
            _ => EIO,
        };
        g = if is_write && er == ENOSPC { G::TornErr(er) } else { G::Err(er) };
    }
    if mutating {
        s.opn += 1;
    }
    s.fopn += 1;
    g
}
fn crash() -> ! {
    if let Some(s) = sh() {
        s.kind = 1;
    }
    unsafe {
        sc(231, 77, 0, 0, 0, 0);
    }
    unreachable!()
}
macro_rules! g {
    ($m:expr) => {
        match gate($m, false) {
            G::Go | G::Torn => {}
            G::Err(e) | G::TornErr(e) => return fail(e) as _,
        }
    };
}
fn live() -> bool {
    unsafe { !SH.is_null() }
}
/// Reading outside of the scratch directory is the run time library's.
fn system(p: &[u8]) -> bool {
    p.starts_with(b"/") && !p.starts_with(unsafe { ROOT.as_bytes() })
}
fn is_ours(p: &[u8]) -> bool {
    // file system paths that the model knows about
    let _ = p;
    true
}

// ------------------------------------------------------------ interposed calls
unsafe fn do_open(dfd: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    let raw = |()| ret(sc(257, dfd as usize, p as usize, flags as usize, mode as usize, 0)) as i32;
    if !live() || bytes(p) == b"/dev/null" || bytes(p).starts_with(b"/proc/") {
        return raw(());
    }
    let wr = flags & 3 != 0;
    let creat = flags & O_CREAT != 0;
    if !wr && !creat && system(bytes(p)) {
        return raw(());
    }
    let excl = flags & O_EXCL != 0;
    let trunc = flags & O_TRUNC != 0;
    let follow = flags & O_NOFOLLOW == 0 && !(creat && excl);
    let k = kind_at(dfd, p, follow);
    let newf = match k {
        T::None => {
            if !creat || full(dfd, p, follow).is_none() || bytes(p).ends_with(b"/") {
                return raw(());
            }
            true
        }
        T::Dir if wr || creat => return raw(()),
        T::Link => return raw(()),
        T::File(_) if (creat && excl) || flags & O_DIRECTORY != 0 => return raw(()),
        T::Dir if creat && excl => return raw(()),
        _ => false,
    };
    let has_data = matches!(k, T::File(n) if n > 0);
    g!(newf || (trunc && wr && has_data));
    let f = full(dfd, p, follow).unwrap_or_default();
    if wr || newf {
        event(1, &f, b"", newf as u64);
        if denied(&f) {
            return fail(EACCES) as i32;
        }
    } else if matches!(k, T::File(_)) {
        event(13, &f, b"", 0);
    }
    raw(())
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if let Some(s) = sh() {
        if fd == s.lock_fd {
            s.lock_fd = -1;
        }
    }
    ret(sc(3, fd as usize, 0, 0, 0, 0)) as i32
}
unsafe fn reg_file(fd: i32) -> bool {
    let mut s: stat64 = std::mem::zeroed();
    sc(5, fd as usize, &mut s as *mut _ as usize, 0, 0, 0) == 0 && s.st_mode & S_IFMT == S_IFREG
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut c_void, n: size_t) -> ssize_t {
    if live() && fd > 2 && reg_file(fd) && !system(&fd_path(fd)) {
        g!(false);
    }
    ret(sc(0, fd as usize, b as usize, n, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const c_void, n: size_t) -> ssize_t {
    if !live() || fd <= 2 || !reg_file(fd) {
        return ret(sc(1, fd as usize, b as usize, n, 0, 0)) as ssize_t;
    }
    let (len, after) = match gate(true, true) {
        G::Go => (n, None),
        G::Torn => (n / 2, Some(None)),
        G::TornErr(e) => (n / 2, Some(Some(e))),
        G::Err(e) => (0, Some(Some(e))),
    };
    let r = sc(1, fd as usize, b as usize, len, 0, 0);
    event(2, &fd_path(fd), b"", len as u64);
    match after {
        None => ret(r) as ssize_t,
        Some(None) => crash(),
        Some(Some(e)) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const iovec, n: i32) -> ssize_t {
    if !live() || fd <= 2 {
        return ret(sc(20, fd as usize, v as usize, n as usize, 0, 0)) as ssize_t;
    }
    let mut all = vec![];
    for k in 0..n as usize {
        let x = &*v.add(k);
        all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    write(fd, all.as_ptr() as *const c_void, all.len())
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if live() && reg_file(fd) {
        g!(true);
        event(9, &fd_path(fd), b"", n as u64);
    }
    ret(sc(77, fd as usize, n as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn statx() -> i32 {
    fail(ENOSYS) as i32
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range() -> ssize_t {
    fail(ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64() -> ssize_t {
    fail(EINVAL) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice() -> ssize_t {
    fail(EINVAL) as ssize_t
}
unsafe fn do_stat(p: *const c_char, b: *mut stat64, follow: bool) -> i32 {
    if live() && !system(bytes(p)) && kind_at(AT_FDCWD, p, follow) != T::None {
        g!(false);
    }
    ret(sc(262, AT_FDCWD as usize, p as usize, b as usize, if follow { 0 } else { 0x100 }, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat64) -> i32 {
    do_stat(p, b, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat64) -> i32 {
    do_stat(p, b, false)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> i32 {
    let raw = |()| ret(sc(83, p as usize, m as usize, 0, 0, 0)) as i32;
    if !live() || kind_at(AT_FDCWD, p, false) != T::None {
        return raw(());
    }
    match full(AT_FDCWD, p, false) {
        None => raw(()),
        Some(f) => {
            g!(true);
            event(3, &f, b"", 0);
            if denied(&f) {
                return fail(EACCES) as i32;
            }
            raw(())
        }
    }
}
unsafe fn empty_dir(dfd: i32, p: *const c_char) -> bool {
    let r = sc(257, dfd as usize, p as usize, (O_RDONLY | O_DIRECTORY | O_CLOEXEC) as usize, 0, 0);
    if r < 0 {
        return false;
    }
    let mut b = vec![0u8; 4096];
    let n = sc(217, r as usize, b.as_mut_ptr() as usize, 4096, 0, 0);
    sc(3, r as usize, 0, 0, 0, 0);
    // "." and ".." take 24 bytes each
    n <= 48
}
unsafe fn do_unlink(dfd: i32, p: *const c_char, rmdir: bool) -> i32 {
    let raw = |()| ret(sc(263, dfd as usize, p as usize, if rmdir { 0x200 } else { 0 }, 0, 0)) as i32;
    if !live() {
        return raw(());
    }
    let k = kind_at(dfd, p, false);
    let ok = match (k, rmdir) {
        (T::None, _) => false,
        (T::Dir, true) => empty_dir(dfd, p) && bytes(p) != b"." && bytes(p) != b"/",
        (T::Dir, false) => false,
        (_, true) => false,
        _ => true,
    };
    if !ok {
        if let Some(f) = full(dfd, p, false) {
            if denied(&f) {
                return fail(EACCES) as i32;
            }
        }
        return raw(());
    }
    g!(true);
    let f = full(dfd, p, false).unwrap_or_default();
    event(if rmdir { 6 } else { 5 }, &f, b"", 0);
    if denied(&f) {
        return fail(EACCES) as i32;
    }
    raw(())
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> i32 {
    do_unlink(AT_FDCWD, p, false)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> i32 {
    do_unlink(AT_FDCWD, p, true)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, p: *const c_char, f: i32) -> i32 {
    do_unlink(d, p, f & 0x200 != 0)
}
unsafe fn under_xdev(p: &[u8]) -> bool {
    let x = XDEV.as_bytes();
    p.len() > x.len() && p.starts_with(x) && p[x.len()] == b'/'
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> i32 {
    let raw = |()| ret(sc(82, p as usize, q as usize, 0, 0, 0)) as i32;
    if !live() {
        return raw(());
    }
    let (i, j) = (kind_at(AT_FDCWD, p, false), kind_at(AT_FDCWD, q, false));
    if i == T::None {
        return raw(());
    }
    let (a, b) = match (full(AT_FDCWD, p, false), full(AT_FDCWD, q, false)) {
        (Some(a), Some(b)) => (a, b),
        _ => return raw(()),
    };
    if !XDEV.is_empty() && under_xdev(&a) != under_xdev(&b) {
        return fail(EXDEV) as i32;
    }
    let bad = match (i, j) {
        (_, T::None) => false,
        (T::Dir, T::Dir) => !empty_dir(AT_FDCWD, q),
        (T::Dir, _) | (_, T::Dir) => true,
        _ => a == b,
    };
    let mut pre = a.clone();
    pre.push(b'/');
    let denied = denied(&a) | denied(&b);
    if bad || (i == T::Dir && b.starts_with(&pre)) {
        return if denied { fail(EACCES) as i32 } else { raw(()) };
    }
    g!(true);
    event(4, &a, &b, (j != T::None) as u64);
    if denied {
        return fail(EACCES) as i32;
    }
    raw(())
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, q: *const c_char) -> i32 {
    let raw = |()| ret(sc(88, t as usize, q as usize, 0, 0, 0)) as i32;
    if !live() || kind_at(AT_FDCWD, q, false) != T::None {
        return raw(());
    }
    match full(AT_FDCWD, q, false) {
        None => raw(()),
        Some(f) => {
            g!(true);
            event(7, &f, bytes(t), 0);
            if denied(&f) {
                return fail(EACCES) as i32;
            }
            raw(())
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const c_char, q: *const c_char) -> i32 {
    let raw = |()| ret(sc(86, p as usize, q as usize, 0, 0, 0)) as i32;
    if !live() || kind_at(AT_FDCWD, q, false) != T::None || kind_at(AT_FDCWD, p, false) == T::None {
        return raw(());
    }
    match (full(AT_FDCWD, p, false), full(AT_FDCWD, q, false)) {
        (Some(a), Some(f)) => {
            g!(true);
            event(1, &f, &a, 1);
            if denied(&f) {
                return fail(EACCES) as i32;
            }
            raw(())
        }
        _ => raw(()),
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: i32, p: *const c_char, t: *const timespec, f: i32) -> i32 {
    let raw = |()| ret(sc(280, d as usize, p as usize, t as usize, f as usize, 0)) as i32;
    if !live() {
        return raw(());
    }
    let m = &*t.add(1);
    if m.tv_nsec == 0x3ffffffe {
        return raw(());
    }
    let follow = f & 0x100 == 0;
    let fp = if p.is_null() {
        fd_path(d)
    } else {
        if kind_at(d, p, follow) == T::None {
            return raw(());
        }
        full(d, p, follow).unwrap_or_default()
    };
    g!(true);
    event(8, &fp, b"", m.tv_sec as u64);
    if denied(&fp) {
        return fail(EACCES) as i32;
    }
    raw(())
}
#[no_mangle]
pub unsafe extern "C" fn futimens(d: i32, t: *const timespec) -> i32 {
    utimensat(d, std::ptr::null(), t, 0)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> i32 {
    if live() && full(AT_FDCWD, p, true).map(|f| denied(&f)).unwrap_or(true) {
        return fail(EACCES) as i32;
    }
    ret(sc(90, p as usize, m as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if live() && op & 8 == 0 {
        let r = sc(73, fd as usize, (op | LOCK_NB) as usize, 0, 0, 0);
        if r < 0 {
            return ret(r) as i32;
        }
        if let G::Err(e) | G::TornErr(e) = gate(false, false) {
            sc(73, fd as usize, LOCK_UN as usize, 0, 0, 0);
            return fail(e) as i32;
        }
        if let Some(s) = sh() {
            s.lock_fd = fd;
        }
        event(12, &fd_path(fd), b"", op as u64);
        return 0;
    }
    if op & 8 != 0 {
        if let Some(s) = sh() {
            if s.lock_fd == fd {
                s.lock_fd = -1;
            }
        }
    }
    ret(sc(73, fd as usize, op as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> i32 {
    match sh() {
        Some(s) if c == CLOCK_REALTIME => {
            (*t).tv_sec = s.clock as i64;
            (*t).tv_nsec = 0;
            0
        }
        _ => ret(sc(228, c as usize, t as usize, 0, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, _r: *mut timespec) -> i32 {
    if let Some(s) = sh() {
        s.clock = s.clock.wrapping_add((*t).tv_sec as u64);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: clockid_t, _f: i32, t: *const timespec, r: *mut timespec) -> i32 {
    nanosleep(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const posix_spawn_file_actions_t,
    at: *const posix_spawnattr_t,
    _argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> i32 {
    let s = match sh() {
        Some(s) => s,
        None => return ENOENT,
    };
    let v = if s.nscript < s.nscripts { s.scripts[s.nscript] } else { 0 };
    s.nscript += 1;
    event(10, bytes(file), b"", v);
    if v == 1000 {
        return ENOENT;
    }
    let cmd = if v >= 256 { format!("printf 'o\\377'; kill -{} $$\0", v & 127) } else { format!("printf 'o\\377'; exit {v}\0") };
    let (a, b) = (b"/bin/sh\0", b"-c\0");
    let argv = [a.as_ptr() as *mut c_char, b.as_ptr() as *mut c_char, cmd.as_ptr() as *mut c_char, std::ptr::null_mut()];
    type F = unsafe extern "C" fn(*mut pid_t, *const c_char, *const posix_spawn_file_actions_t, *const posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> i32;
    let f: F = std::mem::transmute(dlsym(RTLD_NEXT, c"posix_spawn".as_ptr()));
    f(pid, a.as_ptr() as *const c_char, fa, at, argv.as_ptr(), envp)
}

// ------------------------------------------------------------ harness API
unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
unsafe fn input(n: String, lo: u64) -> u64 {
    let m = NAMES.get_or_insert_with(HashMap::new);
    let k = m.entry(n.clone()).or_insert(0);
    *k += 1;
    let nm = if *k == 1 { n } else { format!("{n}#{k}") };
    INPUTS.as_ref().unwrap().get(&nm).copied().unwrap_or(lo)
}
#[no_mangle]
pub unsafe extern "C" fn vp_u64(n: *const u8, l: usize, lo: u64, _hi: u64) -> u64 {
    input(st(n, l), lo)
}
#[no_mangle]
pub unsafe extern "C" fn vp_u8(n: *const u8, l: usize, lo: u64, _hi: u64) -> u8 {
    input(st(n, l), lo) as u8
}
#[no_mangle]
pub unsafe extern "C" fn vp_assume(c: u32) {
    if c == 0 {
        println!("NATIVE assume-failed");
        finish();
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_assert(c: u32, n: *const u8, l: usize) {
    if c == 0 {
        FAILED += 1;
        println!("NATIVE fail {}", st(n, l));
        finish();
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_cover(n: *const u8, l: usize) {
    println!("NATIVE cover {}", st(n, l));
}
fn finish() -> ! {
    use std::io::Write;
    println!("NATIVE done {}", unsafe { FAILED });
    let _ = std::io::stdout().flush();
    unsafe { _exit(if FAILED > 0 { 1 } else { 0 }) }
}
#[no_mangle]
pub unsafe extern "C" fn vp_call(f: extern "C" fn(*mut u8) -> i64, d: *mut u8, out: *mut i64) -> u32 {
    let s = sh().unwrap();
    s.kind = 2;
    s.ret = 0;
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let pid = fork();
    if pid == 0 {
        alarm(40);
        let r = f(d);
        let s = sh().unwrap();
        s.ret = r;
        s.kind = 0;
        _exit(0);
    }
    let mut w = 0;
    waitpid(pid, &mut w, 0);
    s.lock_fd = -1;
    if s.kind == 2 && WIFEXITED(w) && WEXITSTATUS(w) != 101 {
        // std::process::exit
        s.kind = 3;
        s.ret = WEXITSTATUS(w) as i64;
    }
    *out = s.ret;
    s.kind
}
extern "C" {
    static __init_array_start: [Option<unsafe extern "C" fn(i32, *const *const u8, *const *const u8)>; 0];
    static __init_array_end: [u8; 0];
}
#[no_mangle]
pub unsafe extern "C" fn vp_set_args(argc: i32, argv: *const *const u8) {
    let mut p = __init_array_start.as_ptr();
    let e = __init_array_end.as_ptr() as usize;
    while (p as usize) < e {
        if let Some(f) = *p {
            f(argc, argv, environ as *const *const u8);
        }
        p = p.add(1);
    }
}
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn vp_arm(crash: u64, torn: u64, fault: u64, kind: u64) {
    let s = sh().unwrap();
    s.armed = true;
    s.opn = 0;
    s.fopn = 0;
    s.crash_at = crash;
    s.torn = torn;
    s.fault_at = fault;
    s.fault_kind = kind;
}
#[no_mangle]
pub unsafe extern "C" fn vp_disarm() -> u64 {
    let s = sh().unwrap();
    s.armed = false;
    s.opn << 32 | s.fopn
}
#[no_mangle]
pub unsafe extern "C" fn vp_clock(t: u64) {
    sh().unwrap().clock = t;
}
#[no_mangle]
pub unsafe extern "C" fn vp_getclock() -> u64 {
    sh().unwrap().clock
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_len() -> usize {
    sh().unwrap().nev
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_op(i: usize) -> u32 {
    sh().unwrap().ev[i].op
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_x(i: usize) -> u64 {
    sh().unwrap().ev[i].x
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_path(i: usize, w: u32, b: *mut u8, cap: usize) -> usize {
    let e = &sh().unwrap().ev[i];
    let s = if w == 0 { &e.a[..e.al as usize] } else { &e.b[..e.bl as usize] };
    let n = s.len().min(cap);
    std::ptr::copy_nonoverlapping(s.as_ptr(), b, n);
    n
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_add(op: u32, p: *const u8, n: usize, x: u64) {
    event(op, std::slice::from_raw_parts(p, n), b"", x);
}
#[no_mangle]
pub unsafe extern "C" fn vp_log_clear() {
    sh().unwrap().nev = 0;
}
#[no_mangle]
pub unsafe extern "C" fn vp_scripts(p: *const u64, n: usize) {
    let s = sh().unwrap();
    for k in 0..n {
        s.scripts[k] = *p.add(k);
    }
    s.nscripts = n;
    s.nscript = 0;
}
#[no_mangle]
pub unsafe extern "C" fn vp_concretize_u64(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn vp_is_symbolic(_v: u64) -> u32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn vp_set_xdev(p: *const u8, n: usize) {
    XDEV = st(p, n);
}
#[no_mangle]
pub unsafe extern "C" fn vp_lockheld(v: u64) {
    if LOCKFD >= 0 {
        sc(3, LOCKFD as usize, 0, 0, 0, 0);
        LOCKFD = -1;
    }
    if v != 0 {
        let d = format!("{ROOT}/w/state\0");
        sc(83, d.as_ptr() as usize, 0o755, 0, 0, 0);
        let f = format!("{ROOT}/w/state/krill-sync.lock\0");
        let fd = sc(257, AT_FDCWD as usize, f.as_ptr() as usize, (O_RDWR | O_CREAT | O_CLOEXEC) as usize, 0o644, 0);
        sc(73, fd as usize, (LOCK_EX | LOCK_NB) as usize, 0, 0, 0);
        LOCKFD = fd as i32;
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_trace(p: *const u8, n: usize) {
    println!("NATIVE trace {}", st(p, n));
}
#[no_mangle]
pub unsafe extern "C" fn vp_root(b: *mut u8) -> usize {
    let s = format!("{ROOT}/w");
    std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
    s.len()
}
#[no_mangle]
pub unsafe extern "C" fn vp_sign(k: u64, _p: *const u8, _n: usize, m: *const u8, mn: usize, out: *mut u8) {
    let der: &[u8] = match k {
        0 => include_bytes!("../../harness/data/key0.p8"),
        1 => include_bytes!("../../harness/data/key1.p8"),
        2 => include_bytes!("../../harness/data/key2.p8"),
        _ => include_bytes!("../../harness/data/key3.p8"),
    };
    let kp = ring::signature::RsaKeyPair::from_pkcs8(der).unwrap();
    let mut sig = vec![0; 256];
    kp.sign(&ring::signature::RSA_PKCS1_SHA256, &ring::rand::SystemRandom::new(), std::slice::from_raw_parts(m, mn), &mut sig).unwrap();
    std::ptr::copy_nonoverlapping(sig.as_ptr(), out, 256);
}
#[no_mangle]
pub unsafe extern "C" fn vp_engine() -> u32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn vp_render(_v: u64, _p: *mut u8) -> usize {
    0
}
#[no_mangle]
pub unsafe extern "C" fn vp_unrender(_p: *const u8) -> u64 {
    0
}

fn main() {
    // vnative ENTRY INPUTS SCRATCH [-v]
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        if let Some((n, v)) = l.rsplit_once('=') {
            m.insert(n.to_string(), v.parse::<u64>().unwrap());
        }
    }
    let entry = vharness::ENTRIES.iter().find(|e| e.0 == a[1]).expect("no such entry").1;
    unsafe {
        let root = std::fs::canonicalize(&a[3]).unwrap().to_str().unwrap().to_string();
        std::fs::create_dir_all(format!("{root}/w")).unwrap();
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p != MAP_FAILED);
        INPUTS = Some(m);
        VERBOSE = a.len() > 4;
        ROOT = root;
        // no privileges are needed from here on
        if geteuid() == 0 {
            let c = format!("{ROOT}/w\0");
            sc(92, c.as_ptr() as usize, 65534, 65534, 0, 0);
            setgid(65534);
            setuid(65534);
        }
        std::env::set_current_dir(format!("{ROOT}/w")).unwrap();
        SH = p as *mut Shared;
        let s = sh().unwrap();
        s.clock = 1_700_000_000;
        s.lock_fd = -1;
    }
    let _ = is_ours;
    std::panic::set_hook(Box::new(|i| {
        eprintln!("panic: {i}");
        unsafe { _exit(101) }
    }));
    entry();
    finish();
}
