//! Interface to the symbolic engine (or, natively, to `native.rs`).
extern "C" {
    fn vp_u64(n: *const u8, l: usize, lo: u64, hi: u64) -> u64;
    fn vp_u8(n: *const u8, l: usize, lo: u64, hi: u64) -> u8;
    fn vp_assume(c: u32);
    fn vp_assert(c: u32, n: *const u8, l: usize);
    fn vp_cover(n: *const u8, l: usize);
    fn vp_call(f: extern "C" fn(*mut u8) -> i64, d: *mut u8, out: *mut i64) -> u32;
    fn vp_set_args(argc: i32, argv: *const *const u8);
    fn vp_arm(crash: u64, torn: u64, fault: u64, kind: u64);
    fn vp_disarm() -> u64;
    fn vp_clock(t: u64);
    fn vp_getclock() -> u64;
    fn vp_log_len() -> usize;
    fn vp_log_op(i: usize) -> u32;
    fn vp_log_x(i: usize) -> u64;
    fn vp_log_path(i: usize, w: u32, b: *mut u8, cap: usize) -> usize;
    fn vp_log_add(op: u32, p: *const u8, n: usize, x: u64);
    fn vp_log_clear();
    fn vp_scripts(p: *const u64, n: usize);
    fn vp_concretize_u64(v: u64) -> u64;
    fn vp_is_symbolic(v: u64) -> u32;
    fn vp_set_xdev(p: *const u8, n: usize);
    fn vp_lockheld(v: u64);
    fn vp_trace(p: *const u8, n: usize);
    fn vp_root(b: *mut u8) -> usize;
    fn vp_engine() -> u32;
    fn vp_render(v: u64, p: *mut u8) -> usize;
}
pub fn u64v(n: &str, lo: u64, hi: u64) -> u64 {
    unsafe { vp_u64(n.as_ptr(), n.len(), lo, hi) }
}
pub fn u8v(n: &str, lo: u8, hi: u8) -> u8 {
    unsafe { vp_u8(n.as_ptr(), n.len(), lo as u64, hi as u64) }
}
/// A concrete choice in 0..n: one path per value.
pub fn pick(n: &str, cnt: u64) -> u64 {
    conc(u64v(n, 0, cnt - 1))
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c as u32) }
}
pub fn check(c: bool, id: &str) {
    unsafe { vp_assert(c as u32, id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { vp_cover(id.as_ptr(), id.len()) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Ret(i64),
    Crash,
    Panic,
}
extern "C" fn tramp<F: FnMut() -> i64>(d: *mut u8) -> i64 {
    unsafe { (*(d as *mut F))() }
}
/// Run `f` as a process of its own.
pub fn call<F: FnMut() -> i64>(mut f: F) -> End {
    let mut out = 0i64;
    let k = unsafe { vp_call(tramp::<F>, &mut f as *mut F as *mut u8, &mut out) };
    match k {
        0 | 3 => End::Ret(out),
        1 => End::Crash,
        _ => End::Panic,
    }
}
pub fn set_args(a: &[String]) {
    let cs: Vec<std::ffi::CString> = a.iter().map(|s| std::ffi::CString::new(s.as_bytes()).unwrap()).collect();
    let mut ps: Vec<*const u8> = cs.iter().map(|c| c.as_ptr() as *const u8).collect();
    ps.push(std::ptr::null());
    unsafe { vp_set_args(a.len() as i32, ps.as_ptr()) };
    std::mem::forget(cs);
    std::mem::forget(ps);
}
pub fn arm(crash: u64, torn: u64, fault: u64, kind: u64) {
    unsafe { vp_arm(crash, torn, fault, kind) }
}
/// (mutating operations, operations that may fail) since `arm`.
pub fn disarm() -> (u64, u64) {
    let v = unsafe { vp_disarm() };
    (v >> 32, v & 0xffff_ffff)
}
pub fn clock(t: u64) {
    unsafe { vp_clock(t) }
}
pub fn getclock() -> u64 {
    unsafe { vp_getclock() }
}
pub struct Ev {
    pub op: u32,
    pub locked: bool,
    pub x: u64,
    pub a: String,
    pub b: String,
}
pub const CREATE: u32 = 1;
pub const WRITE: u32 = 2;
pub const MKDIR: u32 = 3;
pub const RENAME: u32 = 4;
pub const UNLINK: u32 = 5;
pub const RMDIR: u32 = 6;
pub const SYMLINK: u32 = 7;
pub const UTIME: u32 = 8;
pub const TRUNC: u32 = 9;
pub const EXEC: u32 = 10;
pub const GET: u32 = 11;
pub const LOCK: u32 = 12;
pub const READ: u32 = 13;
pub fn log_len() -> usize {
    unsafe { vp_log_len() }
}
fn lpath(i: usize, w: u32) -> String {
    let mut b = vec![0u8; 1024];
    let n = unsafe { vp_log_path(i, w, b.as_mut_ptr(), 1024) };
    b.truncate(n);
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn log(i: usize) -> Ev {
    let op = unsafe { vp_log_op(i) };
    Ev { op: op & 0xff, locked: op & 0x100 != 0, x: unsafe { vp_log_x(i) }, a: lpath(i, 0), b: lpath(i, 1) }
}
pub fn log_add(op: u32, p: &str, x: u64) {
    unsafe { vp_log_add(op, p.as_ptr(), p.len(), x) }
}
pub fn log_clear() {
    unsafe { vp_log_clear() }
}
pub fn scripts(v: &[u64]) {
    unsafe { vp_scripts(v.as_ptr(), v.len()) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vp_concretize_u64(v) }
}
pub fn symbolic(v: u64) -> bool {
    unsafe { vp_is_symbolic(v) != 0 }
}
pub fn xdev(p: &str) {
    unsafe { vp_set_xdev(p.as_ptr(), p.len()) }
}
pub fn lockheld(v: u64) {
    unsafe { vp_lockheld(v) }
}
pub fn trace(s: &str) {
    unsafe { vp_trace(s.as_ptr(), s.len()) }
}
pub fn root() -> String {
    let mut b = vec![0u8; 4096];
    let n = unsafe { vp_root(b.as_mut_ptr()) };
    b.truncate(n);
    String::from_utf8(b).unwrap()
}
pub fn engine() -> bool {
    unsafe { vp_engine() != 0 }
}

/// Called by the engine instead of `<u64 as Display>::fmt` for symbolic values.
#[no_mangle]
pub extern "C" fn vp_fmt_u64(v: u64, f: *mut u8) -> bool {
    let mut b = [0u8; 24];
    let n = unsafe { vp_render(v, b.as_mut_ptr()) };
    let f = unsafe { &mut *(f as *mut std::fmt::Formatter<'static>) };
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) }).is_err()
}
