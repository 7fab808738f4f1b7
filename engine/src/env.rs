//! Model of the operating system the encoded code runs on: an in-memory POSIX
//! file system with crash and fault points, a clock, locks, child processes,
//! plus the harness API (`vp_*`).
use crate::exec::*;
use crate::expr::{cx, Eid};
use crate::ir::*;
use crate::mem::*;
use crate::solver::Model;
use crate::val::Val;
use std::collections::HashMap;
use std::rc::Rc;

pub const ENOENT: u32 = 2;
pub const EIO: u32 = 5;
pub const EBADF: u32 = 9;
pub const ECHILD: u32 = 10;
pub const EAGAIN: u32 = 11;
pub const EACCES: u32 = 13;
pub const EEXIST: u32 = 17;
pub const EXDEV: u32 = 18;
pub const ENOTDIR: u32 = 20;
pub const EISDIR: u32 = 21;
pub const EINVAL: u32 = 22;
pub const ENOTTY: u32 = 25;
pub const ENOSPC: u32 = 28;
pub const ESPIPE: u32 = 29;
pub const ENAMETOOLONG: u32 = 36;
pub const ENOSYS: u32 = 38;
pub const ENOTEMPTY: u32 = 39;
pub const ELOOP: u32 = 40;

#[derive(Clone)]
pub enum Kind {
    Dir { ents: Vec<(Rc<Obj>, usize)>, parent: usize },
    File { data: Obj },
    Link { target: Obj },
}
#[derive(Clone)]
pub struct Inode {
    pub kind: Kind,
    pub mtime: Val,
}
#[derive(Clone, PartialEq)]
pub enum FdK {
    Ino(usize),
    Null,
    Pipe,
    Sock,
}
#[derive(Clone)]
pub struct Fd {
    pub k: FdK,
    pub off: u64,
    pub wr: bool,
    pub append: bool,
    pub path: Rc<Obj>,
}
#[derive(Clone)]
pub struct Event {
    pub op: u32,
    pub a: Rc<Obj>,
    pub b: Rc<Obj>,
    pub x: Val,
}
#[derive(Clone)]
pub struct Dirp {
    pub fd: usize,
    pub ents: Vec<(Rc<Obj>, usize)>,
    pub pos: usize,
    pub buf: u64,
}

#[derive(Clone)]
pub struct Env {
    pub errno: u64,
    pub ino: Vec<Option<Rc<Inode>>>,
    pub fds: Vec<Option<Rc<Fd>>>,
    pub dirps: Vec<Option<Rc<Dirp>>>,
    pub cwd: usize,
    pub clock: Val,
    pub armed: bool,
    pub opn: u64,
    pub fopn: u64,
    pub crash_at: Val,
    pub torn: Val,
    pub fault_at: Val,
    pub fault_kind: Val,
    pub xdev: Option<Rc<Obj>>,
    pub log: Rc<Vec<Event>>,
    pub scripts: Rc<Vec<Val>>,
    pub nscript: usize,
    pub kids: Rc<Vec<Val>>,
    pub lock_fd: Option<usize>,
    pub lock_ext: Val,
    pub sha: Rc<Vec<(Obj, Obj)>>,
    /// signatures made: public key, message, signature
    pub sigs: Rc<Vec<(Obj, Obj, Obj)>>,
    pub trace: Rc<Vec<String>>,
}

pub fn nbytes(s: &str) -> Obj {
    Obj { data: s.as_bytes().to_vec(), sym: None }
}

impl Env {
    pub fn new() -> Env {
        let mut e = Env {
            errno: 0,
            ino: vec![],
            fds: vec![],
            dirps: vec![],
            cwd: 1,
            clock: Val::I(1_700_000_000),
            armed: false,
            opn: 0,
            fopn: 0,
            crash_at: Val::I(u64::MAX),
            torn: Val::I(0),
            fault_at: Val::I(u64::MAX),
            fault_kind: Val::I(0),
            xdev: None,
            log: Rc::new(vec![]),
            scripts: Rc::new(vec![]),
            nscript: 0,
            kids: Rc::new(vec![]),
            lock_fd: None,
            lock_ext: Val::I(0),
            sha: Rc::new(vec![]),
            sigs: Rc::new(vec![]),
            trace: Rc::new(vec![]),
        };
        let dir = |parent| Some(Rc::new(Inode { kind: Kind::Dir { ents: vec![], parent }, mtime: Val::I(1_600_000_000) }));
        e.ino.push(dir(0));
        e.ino.push(dir(0));
        if let Kind::Dir { ents, .. } = &mut Rc::make_mut(e.ino[0].as_mut().unwrap()).kind {
            ents.push((Rc::new(nbytes("w")), 1));
        }
        for _ in 0..3 {
            e.fds.push(Some(Rc::new(Fd { k: FdK::Null, off: 0, wr: true, append: false, path: Rc::new(nbytes("/dev/null")) })));
        }
        e
    }
    pub fn nfds(&self) -> usize {
        self.fds.len()
    }
    fn node(&self, i: usize) -> &Inode {
        self.ino[i].as_ref().unwrap()
    }
    fn node_mut(&mut self, i: usize) -> &mut Inode {
        Rc::make_mut(self.ino[i].as_mut().unwrap())
    }
    fn ents_mut(&mut self, i: usize) -> &mut Vec<(Rc<Obj>, usize)> {
        match &mut self.node_mut(i).kind {
            Kind::Dir { ents, .. } => ents,
            _ => panic!("not dir"),
        }
    }
    fn new_node(&mut self, kind: Kind) -> usize {
        let m = self.clock.clone();
        self.ino.push(Some(Rc::new(Inode { kind, mtime: m })));
        self.ino.len() - 1
    }
    fn new_fd(&mut self, f: Fd) -> u64 {
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(Rc::new(f));
                return i as u64;
            }
        }
        self.fds.push(Some(Rc::new(f)));
        self.fds.len() as u64 - 1
    }
    fn canon(&self, mut d: usize) -> Obj {
        let mut parts = vec![];
        while d != 0 {
            let p = match &self.node(d).kind {
                Kind::Dir { parent, .. } => *parent,
                _ => 0,
            };
            if let Kind::Dir { ents, .. } = &self.node(p).kind {
                match ents.iter().find(|e| e.1 == d) {
                    Some(e) => parts.push(e.0.clone()),
                    None => {
                        parts.push(Rc::new(nbytes("(deleted)")));
                    }
                }
            }
            d = p;
        }
        let mut o = Obj::default();
        for p in parts.iter().rev() {
            push(&mut o, b"/");
            append(&mut o, p);
        }
        o
    }
    fn full(&self, dir: usize, name: &Obj) -> Rc<Obj> {
        let mut o = self.canon(dir);
        push(&mut o, b"/");
        append(&mut o, name);
        Rc::new(o)
    }
    fn is_dir(&self, i: usize) -> bool {
        matches!(self.node(i).kind, Kind::Dir { .. })
    }
    pub fn event(&mut self, op: u32, a: Rc<Obj>, b: Rc<Obj>, x: Val) {
        let l = if self.lock_fd.is_some() { 0x100 } else { 0 };
        Rc::make_mut(&mut self.log).push(Event { op: op | l, a, b, x });
    }
}

pub fn push(o: &mut Obj, b: &[u8]) {
    o.data.extend_from_slice(b);
}
pub fn append(o: &mut Obj, s: &Obj) {
    let d = o.data.len();
    o.data.resize(d + s.data.len(), 0);
    o.copy_from(d as u32, s, 0, s.data.len() as u32);
}

pub const OPS: [&str; 16] = ["?", "create", "write", "mkdir", "rename", "unlink", "rmdir", "symlink", "utime", "truncate", "exec", "get", "lock", "chmod", "mark", "read"];

pub fn process_end(st: &mut State, nfds: usize) {
    for i in nfds..st.env.fds.len() {
        st.env.fds[i] = None;
    }
    st.env.fds.truncate(nfds);
    st.env.lock_fd = None;
    st.env.dirps.clear();
    st.env.armed = false;
}

pub fn render(o: &Obj, m: &dyn Fn(u32) -> u64) -> String {
    let mut s = String::new();
    for k in 0..o.len() {
        let b = match o.byte(k as u32) {
            Val::I(x) => x as u8,
            Val::E(e) => cx().eval(e, m, &mut HashMap::new()) as u8,
            _ => b'?',
        };
        if (0x20..0x7f).contains(&b) {
            s.push(b as char)
        } else {
            s.push_str(&format!("\\x{b:02x}"))
        }
    }
    s
}

pub fn trace_lines(st: &State, m: &Model) -> Vec<String> {
    let f = |v: u32| m.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
    let mut out: Vec<String> = st
        .env
        .log
        .iter()
        .map(|e| {
            let b = if e.b.len() > 0 { format!(" -> {}", render(&e.b, &f)) } else { String::new() };
            format!("{}{} {}{}", OPS[(e.op & 0xff).min(15) as usize], if e.op & 0x100 != 0 { "[locked]" } else { "" }, render(&e.a, &f), b)
        })
        .collect();
    for t in st.env.trace.iter() {
        out.push(format!("note: {t}"));
    }
    if !st.last_panic.is_empty() {
        out.push(format!("panic: {}", st.last_panic));
    }
    out
}

// ------------------------------------------------------------------ helpers
fn err(st: &mut State, ex: &Exec, e: u32) -> R<Val> {
    let a = st.env.errno;
    ex.write(st, a, 32, &Val::I(e as u64))?;
    Ok(Val::I(0xffff_ffff))
}
fn err64(st: &mut State, ex: &Exec, e: u32) -> R<Val> {
    err(st, ex, e)?;
    Ok(Val::I(u64::MAX))
}
fn c(ex: &mut Exec, st: &State, a: &[Val], i: usize) -> R<u64> {
    ex.conc(st, &a[i])
}

pub fn bytes_eq(x: &Obj, y: &Obj) -> Eid {
    let cx_ = cx();
    if x.len() != y.len() {
        return cx_.ff();
    }
    if x.sym.is_none() && y.sym.is_none() {
        return if x.data == y.data { cx_.tt() } else { cx_.ff() };
    }
    // group into 8-byte words so that whole integers stay whole
    let mut acc = cx().tt();
    let n = x.len() as u32;
    let mut k = 0;
    while k < n {
        let w = (n - k).min(8);
        let w = if w == 8 { 8 } else { 1 };
        let (p, q) = (x.read(k, w, w * 8), y.read(k, w, w * 8));
        let e = cx().eq(p.ex(w * 8), q.ex(w * 8));
        acc = cx().and(acc, e);
        if cx().as_const(acc) == Some(0) {
            return acc;
        }
        k += w;
    }
    acc
}

fn eq_dec(ex: &mut Exec, st: &State, x: &Obj, y: &Obj) -> R<bool> {
    let e = bytes_eq(x, y);
    ex.decide(st, e)
}

fn is_byte(ex: &mut Exec, st: &State, v: &Val, b: u8) -> R<bool> {
    match v {
        Val::I(x) => Ok(*x as u8 == b),
        Val::E(e) => {
            let k = cx().konst(b as u128, 8);
            let q = cx().eq(*e, k);
            ex.decide(st, q)
        }
        _ => bad("is_byte"),
    }
}

fn split(ex: &mut Exec, st: &State, p: &Obj) -> R<(bool, Vec<Rc<Obj>>, bool)> {
    let n = p.len() as u32;
    let mut comps = vec![];
    let mut start = 0;
    let mut abs = false;
    let mut trailing = false;
    for k in 0..n {
        if is_byte(ex, st, &p.byte(k), b'/')? {
            if k == 0 {
                abs = true;
            }
            if k > start {
                comps.push(Rc::new(p.slice(start, k - start)));
            }
            start = k + 1;
            trailing = true;
        } else {
            trailing = false;
        }
    }
    if start < n {
        comps.push(Rc::new(p.slice(start, n - start)));
    }
    Ok((abs, comps, trailing))
}

fn lookup(ex: &mut Exec, st: &State, d: usize, name: &Obj) -> R<Option<usize>> {
    if let Kind::Dir { ents, .. } = &st.env.node(d).kind {
        for (n, i) in ents {
            if eq_dec(ex, st, n, name)? {
                return Ok(Some(*i));
            }
        }
    }
    Ok(None)
}

pub struct Res_ {
    pub dir: usize,
    pub name: Rc<Obj>,
    pub ino: Option<usize>,
}

/// Err(errno) inside Ok
fn resolve_at(ex: &mut Exec, st: &State, base: usize, p: &Obj, follow: bool) -> R<Result<Res_, u32>> {
    resolve_d(ex, st, base, p, follow, 0)
}
fn resolve_d(ex: &mut Exec, st: &State, base: usize, p: &Obj, follow: bool, depth: u32) -> R<Result<Res_, u32>> {
    if depth > 20 {
        return Ok(Err(ELOOP));
    }
    if p.len() == 0 {
        return Ok(Err(ENOENT));
    }
    if p.len() > 4095 {
        return Ok(Err(ENAMETOOLONG));
    }
    let (abs, comps, trailing) = split(ex, st, p)?;
    let mut d = if abs { 0 } else { base };
    let dot = nbytes(".");
    let dotdot = nbytes("..");
    if comps.is_empty() {
        return Ok(Ok(Res_ { dir: d, name: Rc::new(dot), ino: Some(d) }));
    }
    let n = comps.len();
    for (k, name) in comps.iter().enumerate() {
        let last = k + 1 == n;
        if name.len() > 255 {
            return Ok(Err(ENAMETOOLONG));
        }
        if !st.env.is_dir(d) {
            return Ok(Err(ENOTDIR));
        }
        let isdot = eq_dec(ex, st, name, &dot)?;
        let isdd = !isdot && eq_dec(ex, st, name, &dotdot)?;
        if isdot || isdd {
            if isdd {
                if let Kind::Dir { parent, .. } = &st.env.node(d).kind {
                    d = *parent;
                }
            }
            if last {
                return Ok(Ok(Res_ { dir: d, name: Rc::new(nbytes(".")), ino: Some(d) }));
            }
            continue;
        }
        let i = lookup(ex, st, d, name)?;
        match i {
            None => {
                if last {
                    return Ok(Ok(Res_ { dir: d, name: name.clone(), ino: None }));
                }
                return Ok(Err(ENOENT));
            }
            Some(i) => {
                if let Kind::Link { target } = &st.env.node(i).kind {
                    if !last || follow || trailing {
                        let t = target.clone();
                        let r = resolve_d(ex, st, d, &t, true, depth + 1)?;
                        match r {
                            Err(e) => return Ok(Err(e)),
                            Ok(r) => {
                                if last {
                                    return Ok(Ok(r));
                                }
                                match r.ino {
                                    None => return Ok(Err(ENOENT)),
                                    Some(i) => {
                                        d = i;
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                }
                if last {
                    if trailing && !st.env.is_dir(i) {
                        return Ok(Err(ENOTDIR));
                    }
                    return Ok(Ok(Res_ { dir: d, name: name.clone(), ino: Some(i) }));
                }
                d = i;
            }
        }
    }
    bad("resolve")
}

fn base_of(st: &State, dirfd: u64) -> Result<usize, u32> {
    if dirfd as u32 as i32 == -100 {
        return Ok(st.env.cwd);
    }
    match st.env.fds.get(dirfd as usize) {
        Some(Some(f)) => match f.k {
            FdK::Ino(i) => Ok(i),
            _ => Err(ENOTDIR),
        },
        _ => Err(EBADF),
    }
}

enum Gate {
    Go,
    Torn,
    Err(u32),
    TornErr(u32),
}

/// Decisions about crash/fault at this point.  All decisions happen before
/// the counters change, so a re-execution after a fork is consistent.
fn gate(ex: &mut Exec, st: &mut State, mutating: bool, is_write: bool) -> R<Gate> {
    if !st.env.armed {
        return Ok(Gate::Go);
    }
    let mut g = Gate::Go;
    if ex.trace {
        eprintln!("[gate] {} {} {} @ {}", st.env.opn, st.env.fopn, mutating, ex.where_(st));
    }
    if mutating {
        let ca = st.env.crash_at.clone();
        let e = icmp(Pred::Eq, 64, &ca, &Val::I(st.env.opn));
        if ex.decide_v(st, &e)? {
            if is_write {
                let t = icmp(Pred::Ne, 64, &st.env.torn.clone(), &Val::I(0));
                if ex.decide_v(st, &t)? {
                    st.env.opn += 1;
                    return Ok(Gate::Torn);
                }
            }
            return Err(Stop::Crash);
        }
    }
    let fa = st.env.fault_at.clone();
    let e = icmp(Pred::Eq, 64, &fa, &Val::I(st.env.fopn));
    if ex.decide_v(st, &e)? {
        let fk = st.env.fault_kind.clone();
        let mut er = EIO;
        for (k, v) in [(1u64, ENOSPC), (2, EACCES)] {
            let q = icmp(Pred::Eq, 64, &fk, &Val::I(k));
            if ex.decide_v(st, &q)? {
                er = v;
            }
        }
        g = if is_write && er == ENOSPC { Gate::TornErr(er) } else { Gate::Err(er) };
    }
    if mutating {
        st.env.opn += 1;
    }
    st.env.fopn += 1;
    Ok(g)
}

macro_rules! g {
    ($ex:expr, $st:expr, $m:expr) => {
        match gate($ex, $st, $m, false)? {
            Gate::Go | Gate::Torn => {}
            Gate::Err(e) | Gate::TornErr(e) => return err($st, $ex, e),
        }
    };
}
macro_rules! res {
    ($ex:expr, $st:expr, $base:expr, $p:expr, $f:expr) => {{
        let b = match base_of($st, $base) {
            Ok(b) => b,
            Err(e) => return err($st, $ex, e),
        };
        match resolve_at($ex, $st, b, &$p, $f)? {
            Ok(r) => r,
            Err(e) => return err($st, $ex, e),
        }
    }};
}

fn fd_ino(st: &State, fd: u64) -> Option<usize> {
    match st.env.fds.get(fd as usize) {
        Some(Some(f)) => match f.k {
            FdK::Ino(i) => Some(i),
            _ => None,
        },
        _ => None,
    }
}

const AT_FDCWD: u64 = 0xffff_ff9c;

fn do_open(ex: &mut Exec, st: &mut State, dirfd: u64, p: Obj, flags: u64) -> R<Val> {
    let wr = flags & 3 != 0;
    let creat = flags & 0o100 != 0;
    let excl = flags & 0o200 != 0;
    let trunc = flags & 0o1000 != 0;
    let app = flags & 0o2000 != 0;
    let odir = flags & 0o200000 != 0;
    let nofollow = flags & 0o400000 != 0;
    if p.data == b"/dev/null" && p.sym.is_none() {
        let fd = st.env.new_fd(Fd { k: FdK::Null, off: 0, wr, append: false, path: Rc::new(p) });
        return Ok(Val::I(fd));
    }
    let r = res!(ex, st, dirfd, p, !nofollow && !(creat && excl));
    let (i, newfile) = match r.ino {
        Some(i) => {
            if creat && excl {
                return err(st, ex, EEXIST);
            }
            match &st.env.node(i).kind {
                Kind::Link { .. } => return err(st, ex, if odir { ENOTDIR } else { ELOOP }),
                Kind::Dir { .. } => {
                    if wr || creat {
                        return err(st, ex, EISDIR);
                    }
                }
                Kind::File { .. } => {
                    if odir {
                        return err(st, ex, ENOTDIR);
                    }
                }
            }
            (i, false)
        }
        None => {
            if !creat {
                return err(st, ex, ENOENT);
            }
            (usize::MAX, true)
        }
    };
    let has_data = !newfile && matches!(&st.env.node(i).kind, Kind::File { data } if data.len() > 0);
    let mutates = newfile || (trunc && wr && has_data);
    g!(ex, st, mutates);
    let full = st.env.full(r.dir, &r.name);
    let i = if newfile {
        let n = st.env.new_node(Kind::File { data: Obj::default() });
        st.env.ents_mut(r.dir).push((r.name.clone(), n));
        st.env.event(1, full.clone(), Rc::new(Obj::default()), Val::I(1));
        n
    } else {
        if wr {
            st.env.event(1, full.clone(), Rc::new(Obj::default()), Val::I(0));
        } else if matches!(st.env.node(i).kind, Kind::File { .. }) {
            st.env.event(13, full.clone(), Rc::new(Obj::default()), Val::I(0));
        }
        if trunc && wr {
            let m = st.env.clock.clone();
            let nd = st.env.node_mut(i);
            nd.kind = Kind::File { data: Obj::default() };
            nd.mtime = m;
        }
        i
    };
    let fd = st.env.new_fd(Fd { k: FdK::Ino(i), off: 0, wr, append: app, path: full });
    Ok(Val::I(fd))
}

fn b_open(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let f = c(ex, st, a, 1)?;
    do_open(ex, st, AT_FDCWD, p, f)
}
fn b_openat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 1)?;
    let p = ex.cstr(st, p)?;
    let f = c(ex, st, a, 2)?;
    let d = c(ex, st, a, 0)?;
    do_open(ex, st, d, p, f)
}
fn b_close(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)? as usize;
    if fd >= 3 && fd < st.env.fds.len() {
        st.env.fds[fd] = None;
        if st.env.lock_fd == Some(fd) {
            st.env.lock_fd = None;
        }
    }
    Ok(Val::I(0))
}
fn do_read(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let buf = c(ex, st, a, 1)?;
    let n = c(ex, st, a, 2)?;
    let f = match st.env.fds.get(fd as usize) {
        Some(Some(f)) => f.clone(),
        _ => return err64(st, ex, EBADF),
    };
    match f.k {
        FdK::Ino(i) => {
            if st.env.is_dir(i) {
                return err64(st, ex, EISDIR);
            }
            match gate(ex, st, false, false)? {
                Gate::Err(e) | Gate::TornErr(e) => return err64(st, ex, e),
                _ => {}
            }
            let (s, k) = match &st.env.node(i).kind {
                Kind::File { data } => {
                    let k = data.len().saturating_sub(f.off).min(n);
                    (if k > 0 { data.slice(f.off as u32, k as u32) } else { Obj::default() }, k)
                }
                _ => return bad("read kind"),
            };
            ex.writen(st, buf, &s)?;
            let fr = Rc::make_mut(st.env.fds[fd as usize].as_mut().unwrap());
            fr.off += k;
            Ok(Val::I(k))
        }
        FdK::Pipe => {
            // script output: two bytes, not valid UTF-8 on stdout
            if f.off == 0 && n >= 2 {
                let o = Obj { data: vec![b'o', 0xff], sym: None };
                ex.writen(st, buf, &o)?;
                Rc::make_mut(st.env.fds[fd as usize].as_mut().unwrap()).off = 2;
                return Ok(Val::I(2));
            }
            Ok(Val::I(0))
        }
        _ => Ok(Val::I(0)),
    }
}
fn do_write(ex: &mut Exec, st: &mut State, fd: u64, s: Obj) -> R<Val> {
    let f = match st.env.fds.get(fd as usize) {
        Some(Some(f)) => f.clone(),
        _ => return err64(st, ex, EBADF),
    };
    let n = s.len();
    match f.k {
        FdK::Ino(i) => {
            if !f.wr {
                return err64(st, ex, EBADF);
            }
            let gt = gate(ex, st, true, true)?;
            let (len, after) = match gt {
                Gate::Go => (n, None),
                Gate::Torn => (n / 2, Some(Err(Stop::Crash))),
                Gate::TornErr(e) => (n / 2, Some(Ok(e))),
                Gate::Err(e) => (0, Some(Ok(e))),
            };
            let m = st.env.clock.clone();
            let nd = st.env.node_mut(i);
            if let Kind::File { data } = &mut nd.kind {
                let off = if f.append { data.len() } else { f.off };
                if off + len > data.len() {
                    data.resize((off + len) as usize);
                }
                data.copy_from(off as u32, &s, 0, len as u32);
            }
            nd.mtime = m;
            let fr = Rc::make_mut(st.env.fds[fd as usize].as_mut().unwrap());
            fr.off += len;
            let p = f.path.clone();
            st.env.event(2, p, Rc::new(Obj::default()), Val::I(len));
            match after {
                None => Ok(Val::I(n)),
                Some(Err(s)) => Err(s),
                Some(Ok(e)) => err64(st, ex, e),
            }
        }
        _ => Ok(Val::I(n)),
    }
}
fn b_write(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let buf = c(ex, st, a, 1)?;
    let n = c(ex, st, a, 2)?;
    if fd == 2 && ex.trace {
        let s = ex.readn(st, buf, n)?;
        let f = |v: u32| st.model.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
        eprintln!("[stderr] {}", render(&s, &f));
    }
    if fd == 1 || fd == 2 {
        return Ok(Val::I(n));
    }
    let s = ex.readn(st, buf, n)?;
    do_write(ex, st, fd, s)
}
fn b_writev(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let iov = c(ex, st, a, 1)?;
    let n = c(ex, st, a, 2)?;
    let mut s = Obj::default();
    for k in 0..n {
        let p = ex.read(st, iov + 16 * k, 64)?;
        let l = ex.read(st, iov + 16 * k + 8, 64)?;
        let (p, l) = (ex.conc(st, &p)?, ex.conc(st, &l)?);
        let x = ex.readn(st, p, l)?;
        append(&mut s, &x);
    }
    if fd == 1 || fd == 2 {
        if ex.trace {
            let f = |v: u32| st.model.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
            eprintln!("[stderr] {}", render(&s, &f));
        }
        return Ok(Val::I(s.len()));
    }
    do_write(ex, st, fd, s)
}
fn b_lseek(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let off = c(ex, st, a, 1)? as i64;
    let wh = c(ex, st, a, 2)?;
    let i = match fd_ino(st, fd) {
        Some(i) => i,
        None => return err64(st, ex, ESPIPE),
    };
    let len = match &st.env.node(i).kind {
        Kind::File { data } => data.len() as i64,
        _ => 0,
    };
    let fr = Rc::make_mut(st.env.fds[fd as usize].as_mut().unwrap());
    let n = match wh {
        0 => off,
        1 => fr.off as i64 + off,
        _ => len + off,
    };
    fr.off = n as u64;
    Ok(Val::I(n as u64))
}
fn b_ftruncate(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let n = c(ex, st, a, 1)?;
    let i = match fd_ino(st, fd) {
        Some(i) => i,
        None => return err(st, ex, EINVAL),
    };
    g!(ex, st, true);
    let m = st.env.clock.clone();
    let nd = st.env.node_mut(i);
    if let Kind::File { data } = &mut nd.kind {
        data.resize(n as usize);
    }
    nd.mtime = m;
    let p = st.env.fds[fd as usize].as_ref().unwrap().path.clone();
    st.env.event(9, p, Rc::new(Obj::default()), Val::I(n));
    Ok(Val::I(0))
}

fn fill_stat(ex: &mut Exec, st: &mut State, i: usize, buf: u64) -> R<Val> {
    let mut o = Obj::new(144);
    let (mode, size) = match &st.env.node(i).kind {
        Kind::Dir { .. } => (0o040755u64, 4096),
        Kind::File { data } => (0o100644, data.len()),
        Kind::Link { target } => (0o120777, target.len()),
    };
    o.write(0, 8, 64, &Val::I(dev_of(st, i)));
    o.write(8, 8, 64, &Val::I(i as u64 + 100));
    o.write(16, 8, 64, &Val::I(1));
    o.write(24, 4, 32, &Val::I(mode));
    o.write(48, 8, 64, &Val::I(size));
    o.write(56, 8, 64, &Val::I(4096));
    o.write(64, 8, 64, &Val::I((size + 511) / 512));
    let m = st.env.node(i).mtime.clone();
    o.write(72, 8, 64, &m);
    o.write(88, 8, 64, &m);
    o.write(104, 8, 64, &m);
    ex.writen(st, buf, &o)?;
    Ok(Val::I(0))
}
fn dev_of(_st: &State, _i: usize) -> u64 {
    1
}
fn stat_path(ex: &mut Exec, st: &mut State, a: &[Val], follow: bool) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let buf = c(ex, st, a, 1)?;
    if p.data == b"/dev/null" {
        return err(st, ex, ENOENT);
    }
    let r = res!(ex, st, AT_FDCWD, p, follow);
    match r.ino {
        None => err(st, ex, ENOENT),
        Some(i) => {
            g!(ex, st, false);
            fill_stat(ex, st, i, buf)
        }
    }
}
fn b_stat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    stat_path(ex, st, a, true)
}
fn b_lstat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    stat_path(ex, st, a, false)
}
fn b_fstat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let buf = c(ex, st, a, 1)?;
    match fd_ino(st, fd) {
        Some(i) => fill_stat(ex, st, i, buf),
        None => {
            let mut o = Obj::new(144);
            o.write(24, 4, 32, &Val::I(0o010600));
            ex.writen(st, buf, &o)?;
            Ok(Val::I(0))
        }
    }
}
fn b_mkdir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let r = res!(ex, st, AT_FDCWD, p, false);
    if r.ino.is_some() {
        return err(st, ex, EEXIST);
    }
    g!(ex, st, true);
    let full = st.env.full(r.dir, &r.name);
    let n = st.env.new_node(Kind::Dir { ents: vec![], parent: r.dir });
    st.env.ents_mut(r.dir).push((r.name, n));
    st.env.event(3, full, Rc::new(Obj::default()), Val::I(0));
    Ok(Val::I(0))
}
fn remove_ent(st: &mut State, dir: usize, i: usize) {
    st.env.ents_mut(dir).retain(|e| e.1 != i);
}
fn do_unlink(ex: &mut Exec, st: &mut State, dirfd: u64, p: Obj, rmdir: bool) -> R<Val> {
    let r = res!(ex, st, dirfd, p, false);
    let i = match r.ino {
        None => return err(st, ex, ENOENT),
        Some(i) => i,
    };
    if rmdir {
        match &st.env.node(i).kind {
            Kind::Dir { ents, .. } => {
                if !ents.is_empty() {
                    return err(st, ex, ENOTEMPTY);
                }
                if i == 0 || r.name.data == b"." {
                    return err(st, ex, EINVAL);
                }
            }
            _ => return err(st, ex, ENOTDIR),
        }
    } else if st.env.is_dir(i) {
        return err(st, ex, EISDIR);
    }
    g!(ex, st, true);
    let full = st.env.full(r.dir, &r.name);
    remove_ent(st, r.dir, i);
    st.env.event(if rmdir { 6 } else { 5 }, full, Rc::new(Obj::default()), Val::I(0));
    Ok(Val::I(0))
}
fn b_unlink(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    do_unlink(ex, st, AT_FDCWD, p, false)
}
fn b_rmdir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    do_unlink(ex, st, AT_FDCWD, p, true)
}
fn b_unlinkat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 1)?;
    let p = ex.cstr(st, p)?;
    let d = c(ex, st, a, 0)?;
    let f = c(ex, st, a, 2)?;
    do_unlink(ex, st, d, p, f & 0x200 != 0)
}
fn under(x: &Obj, pre: &Obj) -> bool {
    let n = pre.len() as usize;
    x.data.len() > n && x.data[..n] == pre.data[..] && x.data[n] == b'/'
}
fn b_rename(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let q = c(ex, st, a, 1)?;
    let q = ex.cstr(st, q)?;
    let r = res!(ex, st, AT_FDCWD, p, false);
    let s = res!(ex, st, AT_FDCWD, q, false);
    let i = match r.ino {
        None => return err(st, ex, ENOENT),
        Some(i) => i,
    };
    let (fr, fs) = (st.env.full(r.dir, &r.name), st.env.full(s.dir, &s.name));
    if let Some(x) = st.env.xdev.clone() {
        if under(&fr, &x) != under(&fs, &x) {
            return err(st, ex, EXDEV);
        }
    }
    if let Some(j) = s.ino {
        if i == j {
            return Ok(Val::I(0));
        }
        match (&st.env.node(i).kind, &st.env.node(j).kind) {
            (Kind::Dir { .. }, Kind::Dir { ents, .. }) => {
                if !ents.is_empty() {
                    return err(st, ex, ENOTEMPTY);
                }
            }
            (Kind::Dir { .. }, _) => return err(st, ex, ENOTDIR),
            (_, Kind::Dir { .. }) => return err(st, ex, EISDIR),
            _ => {}
        }
    }
    // into itself
    if st.env.is_dir(i) {
        let mut d = s.dir;
        while d != 0 {
            if d == i {
                return err(st, ex, EINVAL);
            }
            d = match &st.env.node(d).kind {
                Kind::Dir { parent, .. } => *parent,
                _ => 0,
            };
        }
    }
    g!(ex, st, true);
    if let Some(j) = s.ino {
        remove_ent(st, s.dir, j);
    }
    remove_ent(st, r.dir, i);
    st.env.ents_mut(s.dir).push((s.name, i));
    if st.env.is_dir(i) {
        if let Kind::Dir { parent, .. } = &mut st.env.node_mut(i).kind {
            *parent = s.dir;
        }
    }
    st.env.event(4, fr, fs, Val::I(s.ino.is_some() as u64));
    Ok(Val::I(0))
}
fn b_symlink(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let t = c(ex, st, a, 0)?;
    let t = ex.cstr(st, t)?;
    let q = c(ex, st, a, 1)?;
    let q = ex.cstr(st, q)?;
    let s = res!(ex, st, AT_FDCWD, q, false);
    if s.ino.is_some() {
        return err(st, ex, EEXIST);
    }
    g!(ex, st, true);
    let full = st.env.full(s.dir, &s.name);
    let n = st.env.new_node(Kind::Link { target: t.clone() });
    st.env.ents_mut(s.dir).push((s.name, n));
    st.env.event(7, full, Rc::new(t), Val::I(0));
    Ok(Val::I(0))
}
fn b_link(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    // link(old,new)
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let q = c(ex, st, a, 1)?;
    let q = ex.cstr(st, q)?;
    let r = res!(ex, st, AT_FDCWD, p, false);
    let s = res!(ex, st, AT_FDCWD, q, false);
    let i = match r.ino {
        None => return err(st, ex, ENOENT),
        Some(i) => i,
    };
    if s.ino.is_some() {
        return err(st, ex, EEXIST);
    }
    g!(ex, st, true);
    let (fr, fs) = (st.env.full(r.dir, &r.name), st.env.full(s.dir, &s.name));
    st.env.ents_mut(s.dir).push((s.name, i));
    st.env.event(1, fs, fr, Val::I(1));
    Ok(Val::I(0))
}
fn b_readlink(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let buf = c(ex, st, a, 1)?;
    let n = c(ex, st, a, 2)?;
    let r = res!(ex, st, AT_FDCWD, p, false);
    let i = match r.ino {
        None => return err64(st, ex, ENOENT),
        Some(i) => i,
    };
    let t = match &st.env.node(i).kind {
        Kind::Link { target } => target.clone(),
        _ => return err64(st, ex, EINVAL),
    };
    let k = t.len().min(n);
    let t = t.slice(0, k as u32);
    ex.writen(st, buf, &t)?;
    Ok(Val::I(k))
}
fn b_realpath(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let r = match resolve_at(ex, st, st.env.cwd, &p, true)? {
        Ok(r) => r,
        Err(e) => {
            err(st, ex, e)?;
            return Ok(Val::I(0));
        }
    };
    let o = match r.ino {
        None => {
            err(st, ex, ENOENT)?;
            return Ok(Val::I(0));
        }
        Some(i) if st.env.is_dir(i) => st.env.canon(i),
        Some(_) => (*st.env.full(r.dir, &r.name)).clone(),
    };
    let mut o = o;
    if o.len() == 0 {
        push(&mut o, b"/");
    }
    push(&mut o, &[0]);
    let b = st.alloc(o.len());
    ex.writen(st, b, &o)?;
    Ok(Val::I(b))
}
fn b_getcwd(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let mut o = st.env.canon(st.env.cwd);
    push(&mut o, &[0]);
    ex.writen(st, p, &o)?;
    Ok(Val::I(p))
}
fn set_time(ex: &mut Exec, st: &mut State, r: Res_, mt: Val) -> R<Val> {
    let i = match r.ino {
        None => return err(st, ex, ENOENT),
        Some(i) => i,
    };
    g!(ex, st, true);
    st.env.node_mut(i).mtime = mt.clone();
    let full = st.env.full(r.dir, &r.name);
    st.env.event(8, full, Rc::new(Obj::default()), mt);
    Ok(Val::I(0))
}
fn b_utimensat(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let d = c(ex, st, a, 0)?;
    let p = c(ex, st, a, 1)?;
    let t = c(ex, st, a, 2)?;
    let f = c(ex, st, a, 3)?;
    let mt = ex.read(st, t + 16, 64)?;
    let ns = ex.read(st, t + 24, 64)?;
    let ns = ex.conc(st, &ns)?;
    if ns == 0x3ffffffe {
        return Ok(Val::I(0));
    }
    let mt = if ns == 0x3fffffff { st.env.clock.clone() } else { mt };
    if p == 0 {
        let i = fd_ino(st, d);
        return set_time(ex, st, Res_ { dir: 0, name: Rc::new(nbytes("?fd")), ino: i }, mt);
    }
    let p = ex.cstr(st, p)?;
    let r = res!(ex, st, d, p, f & 0x100 == 0);
    set_time(ex, st, r, mt)
}
fn b_futimens(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    b_utimensat(ex, st, &[a[0].clone(), Val::I(0), a[1].clone(), Val::I(0)])
}
fn b_utimes(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let t = c(ex, st, a, 1)?;
    let mt = ex.read(st, t + 16, 64)?;
    let p = ex.cstr(st, p)?;
    let r = res!(ex, st, AT_FDCWD, p, true);
    set_time(ex, st, r, mt)
}
fn b_fchmod(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(0))
}
fn b_flock(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)? as usize;
    let op = c(ex, st, a, 1)?;
    if op & 8 != 0 {
        if st.env.lock_fd == Some(fd) {
            st.env.lock_fd = None;
        }
        return Ok(Val::I(0));
    }
    let le = st.env.lock_ext.clone();
    let held = icmp(Pred::Ne, 64, &le, &Val::I(0));
    if ex.decide_v(st, &held)? {
        if op & 4 == 0 {
            return bad("blocking lock on a held lock");
        }
        return err(st, ex, EAGAIN);
    }
    g!(ex, st, false);
    let p = st.env.fds[fd].as_ref().unwrap().path.clone();
    st.env.lock_fd = Some(fd);
    st.env.event(12, p, Rc::new(Obj::default()), Val::I(op));
    Ok(Val::I(0))
}
fn b_fcntl(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let cmd = c(ex, st, a, 1)?;
    match cmd {
        1 | 2 | 3 | 4 => Ok(Val::I(0)),
        1030 | 0 => {
            let f = match st.env.fds.get(fd as usize) {
                Some(Some(f)) => (**f).clone(),
                _ => return err(st, ex, EBADF),
            };
            let n = st.env.new_fd(f);
            Ok(Val::I(n))
        }
        6 | 7 => {
            // F_SETLK
            b_flock(ex, st, &[a[0].clone(), Val::I(2 | 4)])
        }
        _ => err(st, ex, EINVAL),
    }
}

// ---------------------------------------------------------------- directories
fn b_fdopendir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fd = c(ex, st, a, 0)?;
    let i = match fd_ino(st, fd) {
        Some(i) if st.env.is_dir(i) => i,
        _ => {
            err(st, ex, ENOTDIR)?;
            return Ok(Val::I(0));
        }
    };
    let ents = match &st.env.node(i).kind {
        Kind::Dir { ents, .. } => ents.clone(),
        _ => vec![],
    };
    let buf = st.alloc(280);
    let h = st.alloc(8);
    st.env.dirps.push(Some(Rc::new(Dirp { fd: fd as usize, ents, pos: 0, buf })));
    let k = st.env.dirps.len() as u64;
    ex.write(st, h, 64, &Val::I(k))?;
    Ok(Val::I(h))
}
fn b_opendir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    // check gate through open
    let r = do_open(ex, st, AT_FDCWD, p, 0o200000)?;
    match r {
        Val::I(0xffff_ffff) => Ok(Val::I(0)),
        fd => b_fdopendir(ex, st, &[fd]),
    }
}
fn b_readdir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let h = c(ex, st, a, 0)?;
    let k = ex.read(st, h, 64)?;
    let k = ex.conc(st, &k)? as usize - 1;
    let d = st.env.dirps[k].clone().unwrap();
    if d.pos >= d.ents.len() {
        return Ok(Val::I(0));
    }
    let (name, i) = d.ents[d.pos].clone();
    let mut o = Obj::new(280);
    o.write(0, 8, 64, &Val::I(i as u64 + 100));
    o.write(8, 8, 64, &Val::I(d.pos as u64 + 1));
    o.write(16, 2, 16, &Val::I(280));
    let t = match &st.env.node(i).kind {
        Kind::Dir { .. } => 4,
        Kind::File { .. } => 8,
        Kind::Link { .. } => 10,
    };
    o.write(18, 1, 8, &Val::I(t));
    o.copy_from(19, &name, 0, name.len() as u32);
    ex.writen(st, d.buf, &o)?;
    Rc::make_mut(st.env.dirps[k].as_mut().unwrap()).pos += 1;
    Ok(Val::I(d.buf))
}
fn b_closedir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let h = c(ex, st, a, 0)?;
    let k = ex.read(st, h, 64)?;
    let k = ex.conc(st, &k)? as usize - 1;
    if let Some(d) = st.env.dirps[k].take() {
        st.env.fds[d.fd] = None;
        st.free(d.buf);
    }
    st.free(h);
    Ok(Val::I(0))
}
fn b_dirfd(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let h = c(ex, st, a, 0)?;
    let k = ex.read(st, h, 64)?;
    let k = ex.conc(st, &k)? as usize - 1;
    Ok(Val::I(st.env.dirps[k].as_ref().unwrap().fd as u64))
}

// ---------------------------------------------------------------- memory
fn b_malloc(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 0)?;
    if n > 1 << 28 {
        return err(st, ex, 12).map(|_| Val::I(0));
    }
    Ok(Val::I(st.alloc(n)))
}
fn b_calloc(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 0)?.saturating_mul(c(ex, st, a, 1)?);
    if n > 1 << 28 {
        return Ok(Val::I(0));
    }
    Ok(Val::I(st.alloc(n)))
}
fn b_realloc(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let n = c(ex, st, a, 1)?;
    if n > 1 << 28 {
        return Ok(Val::I(0));
    }
    if p == 0 {
        return Ok(Val::I(st.alloc(n)));
    }
    let id = ((p >> 32) - HEAP_BASE) as usize;
    match st.heap.get_mut(id) {
        Some(o) => {
            o.resize(n as usize);
            Ok(Val::I(p))
        }
        None => bad("realloc of bad pointer"),
    }
}
fn b_free(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    st.free(p);
    Ok(Val::I(0))
}
fn b_memalign(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let out = c(ex, st, a, 0)?;
    let n = c(ex, st, a, 2)?;
    let p = st.alloc(n);
    ex.write(st, out, 64, &Val::I(p))?;
    Ok(Val::I(0))
}
fn b_bcmp(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 2)?;
    if n == 0 {
        return Ok(Val::I(0));
    }
    let (p, q) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    let x = ex.readn(st, p, n)?;
    let y = ex.readn(st, q, n)?;
    let e = bytes_eq(&x, &y);
    let ne = cx().not(e);
    Ok(Val::of(cx().zext(ne, 32)))
}
fn b_memcmp(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 2)?;
    if n == 0 {
        return Ok(Val::I(0));
    }
    let (p, q) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    let x = ex.readn(st, p, n)?;
    let y = ex.readn(st, q, n)?;
    if x.sym.is_none() && y.sym.is_none() {
        let r = match x.data.cmp(&y.data) {
            std::cmp::Ordering::Less => 0xffff_ffff,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        };
        return Ok(Val::I(r));
    }
    let k = cx();
    let mut acc = k.konst(0, 32);
    let (m1, p1) = (k.konst(0xffff_ffff, 32), k.konst(1, 32));
    // stop at first certainly different byte
    let mut stop = n as u32;
    for i in 0..n as u32 {
        let e = k.eq(x.byte(i).ex(8), y.byte(i).ex(8));
        if k.as_const(e) == Some(0) {
            stop = i + 1;
            break;
        }
    }
    for i in (0..stop).rev() {
        let (b, d) = (x.byte(i).ex(8), y.byte(i).ex(8));
        let e = k.eq(b, d);
        let l = k.cmp(Pred::Ult, b, d);
        let s = k.ite(l, m1, p1);
        acc = k.ite(e, acc, s);
    }
    Ok(Val::of(acc))
}
fn b_strlen(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let o = ex.cstr(st, p)?;
    Ok(Val::I(o.len()))
}
fn b_memchr(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let ch = c(ex, st, a, 1)? as u8;
    let n = c(ex, st, a, 2)?;
    let o = ex.readn(st, p, n)?;
    for k in 0..n as u32 {
        if is_byte(ex, st, &o.byte(k), ch)? {
            return Ok(Val::I(p + k as u64));
        }
    }
    Ok(Val::I(0))
}
fn b_memrchr(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let ch = c(ex, st, a, 1)? as u8;
    let n = c(ex, st, a, 2)?;
    let o = ex.readn(st, p, n)?;
    for k in (0..n as u32).rev() {
        if is_byte(ex, st, &o.byte(k), ch)? {
            return Ok(Val::I(p + k as u64));
        }
    }
    Ok(Val::I(0))
}

// ---------------------------------------------------------------- misc libc
fn b_zero(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(0))
}
fn b_one(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(1))
}
fn b_errno(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(st.env.errno))
}
fn b_abort(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Err(Stop::Panic("abort".into()))
}
fn b_exit(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let k = c(ex, st, a, 0)?;
    Err(Stop::Exit(k as u32 as i32 as i64))
}
fn b_clock(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 1)?;
    let t = st.env.clock.clone();
    ex.write(st, p, 64, &t)?;
    ex.write(st, p + 8, 64, &Val::I(0))?;
    Ok(Val::I(0))
}
fn b_nanosleep(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    // clock_nanosleep(clk, flags, req, rem) or nanosleep(req, rem)
    let p = if a.len() == 4 { c(ex, st, a, 2)? } else { c(ex, st, a, 0)? };
    let s = ex.read(st, p, 64)?;
    let t = st.env.clock.clone();
    st.env.clock = bin2(Bin::Add, 64, &t, &s);
    Ok(Val::I(0))
}
fn b_syscall(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 0)?;
    match n {
        318 => {
            let p = c(ex, st, a, 1)?;
            let l = c(ex, st, a, 2)?;
            let o = Obj::new(l as usize);
            ex.writen(st, p, &o)?;
            Ok(Val::I(l))
        }
        202 => Ok(Val::I(0)),
        186 => Ok(Val::I(1)),
        332 | 326 | 434 | 435 | 437 | 439 => err64(st, ex, ENOSYS),
        _ => bad(format!("syscall {n}")),
    }
}
fn b_getrandom(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let l = c(ex, st, a, 1)?;
    let o = Obj::new(l as usize);
    ex.writen(st, p, &o)?;
    Ok(Val::I(l))
}
fn b_enosys(ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    err64(st, ex, ENOSYS)
}
fn b_enosys32(ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    err(st, ex, ENOSYS)
}
fn b_einval(ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    err64(st, ex, EINVAL)
}
fn b_strerror(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let e = c(ex, st, a, 0)?;
    let p = c(ex, st, a, 1)?;
    let mut o = nbytes(&format!("error {e}"));
    push(&mut o, &[0]);
    ex.writen(st, p, &o)?;
    Ok(Val::I(0))
}
fn b_sysconf(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let k = c(ex, st, a, 0)?;
    Ok(Val::I(if k == 30 { 4096 } else { 1 }))
}
fn b_mmap(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(ex, st, a, 1)?;
    let fd = c(ex, st, a, 4)? as u32 as i32;
    if fd >= 0 {
        return err64(st, ex, ENOSYS);
    }
    Ok(Val::I(st.alloc(n)))
}
fn b_glibc(ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    let p = st.alloc(8);
    let mut o = nbytes("2.39");
    push(&mut o, &[0]);
    ex.writen(st, p, &o)?;
    Ok(Val::I(p))
}

// ---------------------------------------------------------------- processes
fn b_pipe2(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let mk = || Fd { k: FdK::Pipe, off: 0, wr: true, append: false, path: Rc::new(nbytes("pipe:")) };
    let r = st.env.new_fd(mk());
    let w = st.env.new_fd(mk());
    ex.write(st, p, 32, &Val::I(r))?;
    ex.write(st, p + 4, 32, &Val::I(w))?;
    Ok(Val::I(0))
}
fn b_spawn(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    // posix_spawnp(pid*, file, ...)
    let pp = c(ex, st, a, 0)?;
    let f = c(ex, st, a, 1)?;
    let path = ex.cstr(st, f)?;
    let k = st.env.nscript;
    let v = st.env.scripts.get(k).cloned().unwrap_or(Val::I(0));
    let q = icmp(Pred::Eq, 64, &v, &Val::I(1000));
    let spawn_fail = ex.decide_v(st, &q)?;
    st.env.nscript += 1;
    st.env.event(10, Rc::new(path), Rc::new(Obj::default()), v.clone());
    if spawn_fail {
        return Ok(Val::I(ENOENT as u64));
    }
    Rc::make_mut(&mut st.env.kids).push(v);
    let pid = 1000 + st.env.kids.len() as u64;
    ex.write(st, pp, 32, &Val::I(pid))?;
    Ok(Val::I(0))
}
fn status_of(ex: &mut Exec, st: &State, pid: u64) -> R<Option<Val>> {
    let i = pid.wrapping_sub(1001) as usize;
    match st.env.kids.get(i).cloned() {
        None => Ok(None),
        Some(v) => {
            let sig = icmp(Pred::Uge, 64, &v, &Val::I(256));
            if ex.decide_v(st, &sig)? {
                // killed by signal v-256
                let s = bin2(Bin::Sub, 64, &v, &Val::I(256));
                Ok(Some(Val::of(cx().extract(s.ex(64), 0, 32))))
            } else {
                let s = bin2(Bin::Shl, 64, &v, &Val::I(8));
                Ok(Some(Val::of(cx().extract(s.ex(64), 0, 32))))
            }
        }
    }
}
fn b_waitpid(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let pid = c(ex, st, a, 0)?;
    let p = c(ex, st, a, 1)?;
    match status_of(ex, st, pid)? {
        None => err(st, ex, ECHILD),
        Some(s) => {
            ex.write(st, p, 32, &s)?;
            Ok(Val::I(pid))
        }
    }
}
fn b_poll(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let n = c(ex, st, a, 1)?;
    let t = c(ex, st, a, 2)? as u32 as i32;
    if t == 0 {
        // startup fd sanity check
        for k in 0..n {
            ex.write(st, p + 8 * k + 6, 16, &Val::I(0))?;
        }
        return Ok(Val::I(0));
    }
    for k in 0..n {
        ex.write(st, p + 8 * k + 6, 16, &Val::I(0x11))?;
    }
    Ok(Val::I(n))
}
fn b_dup2(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let _ = ex;
    let _ = st;
    Ok(a[1].clone())
}
fn b_chdir(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let p = ex.cstr(st, p)?;
    let r = res!(ex, st, AT_FDCWD, p, true);
    match r.ino {
        Some(i) if st.env.is_dir(i) => {
            st.env.cwd = i;
            Ok(Val::I(0))
        }
        _ => err(st, ex, ENOENT),
    }
}

// ---------------------------------------------------------------- sha256
const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
fn sha_block(s: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *s;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        s[i] = s[i].wrapping_add(v[i]);
    }
}
/// sha256_block_data_order(state[8], data, nblocks).  Concrete data is hashed
/// for real.  Symbolic data gives a fresh chaining value constrained to be an
/// injective function of (state, block): collision freedom is assumed.
fn b_sha256(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let sp = c(ex, st, a, 0)?;
    let dp = c(ex, st, a, 1)?;
    let n = c(ex, st, a, 2)?;
    let mut state = ex.readn(st, sp, 32)?;
    for k in 0..n {
        let blk = ex.readn(st, dp + 64 * k, 64)?;
        let mut inp = state.clone();
        append(&mut inp, &blk);
        let out = if inp.sym.is_none() {
            let mut found = None;
            for k in 0..st.env.sha.len() {
                if st.env.sha[k].0.sym.is_some() {
                    let e = bytes_eq(&st.env.sha[k].0, &inp);
                    if ex.decide(st, e)? {
                        found = Some(st.env.sha[k].1.clone());
                        break;
                    }
                }
            }
            let mut s = [0u32; 8];
            for i in 0..8 {
                s[i] = u32::from_le_bytes(state.data[4 * i..4 * i + 4].try_into().unwrap());
            }
            sha_block(&mut s, &blk.data);
            let mut o = Obj::new(32);
            for i in 0..8 {
                o.data[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
            }
            found.unwrap_or(o)
        } else {
            // Collision freedom: the output is the same as for an earlier
            // input iff the inputs are equal (decided, forking if both are
            // possible); otherwise it is a value never seen before.  Hashes
            // are only ever compared and copied, so which value is immaterial.
            let mut found = None;
            for k in 0..st.env.sha.len() {
                let e = bytes_eq(&st.env.sha[k].0, &inp);
                if ex.decide(st, e)? {
                    found = Some(st.env.sha[k].1.clone());
                    break;
                }
            }
            match found {
                Some(o) => o,
                None => {
                    let mut o = Obj::new(32);
                    let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(st.env.sha.len() as u64 + 0x1234_5677);
                    for i in 0..4 {
                        x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                        o.data[8 * i..8 * i + 8].copy_from_slice(&(x ^ (x >> 32)).to_le_bytes());
                    }
                    o
                }
            }
        };
        if !st.env.sha.iter().any(|(i, _)| cx().as_const(bytes_eq(i, &inp)) == Some(1)) {
            Rc::make_mut(&mut st.env.sha).push((inp, out.clone()));
        }
        state = out;
    }
    ex.writen(st, sp, &state)?;
    Ok(Val::I(0))
}

fn assume(ex: &mut Exec, st: &mut State, e: Eid) -> R<()> {
    if let Some(k) = cx().as_const(e) {
        return if k == 1 { Ok(()) } else { Err(Stop::Infeasible) };
    }
    if st.known.get(&e) == Some(&true) {
        return Ok(());
    }
    match ex.sat(st, e)? {
        None => Err(Stop::Infeasible),
        Some(m) => {
            st.model = m;
            st.add_pc(e);
            Ok(())
        }
    }
}

fn unique(st: &mut State, n: &str) -> String {
    let m = Rc::make_mut(&mut st.names);
    let k = m.entry(n.to_string()).or_insert(0);
    *k += 1;
    if *k == 1 {
        n.to_string()
    } else {
        format!("{n}#{k}")
    }
}

// ---------------------------------------------------------------- harness API
fn str_at(ex: &Exec, st: &State, p: u64, n: u64) -> R<String> {
    let o = ex.readn(st, p, n)?;
    Ok(String::from_utf8_lossy(&o.data).to_string())
}
fn new_var(ex: &mut Exec, st: &mut State, name: &str, w: u32, lo: u64, hi: u64) -> R<Val> {
    let nm = unique(st, name);
    if let Some(cc) = &ex.concrete {
        let v = cc.get(&nm).copied().unwrap_or(lo);
        let e = cx().konst(v as u128, w);
        Rc::make_mut(&mut st.inputs).push((nm, e));
        return Ok(Val::I(mask64(v, w)));
    }
    let (mut l, mut h) = (lo, hi);
    if let Some((a, b)) = ex.fix.get(&nm) {
        l = l.max(*a);
        h = h.min(*b);
        if l > h {
            return Err(Stop::Infeasible);
        }
    }
    if l == h {
        let e = cx().konst(l as u128, w);
        Rc::make_mut(&mut st.inputs).push((nm, e));
        return Ok(Val::I(l));
    }
    let e = cx().var(&nm, w, l, h);
    Rc::make_mut(&mut st.inputs).push((nm, e));
    let full = mask64(u64::MAX, w);
    if l > 0 {
        let k = cx().konst(l as u128, w);
        let q = cx().cmp(Pred::Uge, e, k);
        if cx().as_const(q).is_none() {
            st.add_pc(q);
        }
    }
    if h < full {
        let k = cx().konst(h as u128, w);
        let q = cx().cmp(Pred::Ule, e, k);
        if cx().as_const(q).is_none() {
            st.add_pc(q);
        }
    }
    Ok(Val::E(e))
}
fn v_u64(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n, lo, hi) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?, c(ex, st, a, 3)?);
    let s = str_at(ex, st, p, n)?;
    new_var(ex, st, &s, 64, lo, hi)
}
fn v_u8(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n, lo, hi) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?, c(ex, st, a, 3)?);
    let s = str_at(ex, st, p, n)?;
    new_var(ex, st, &s, 8, lo & 0xff, hi & 0xff)
}
fn cond(v: &Val) -> R<Eid> {
    Ok(match v {
        Val::I(x) => {
            if x & 0xff != 0 {
                cx().tt()
            } else {
                cx().ff()
            }
        }
        Val::E(e) => {
            let w = cx().w(*e);
            if w == 1 {
                *e
            } else {
                let z = cx().konst(0, w);
                cx().cmp(Pred::Ne, *e, z)
            }
        }
        _ => return bad("cond"),
    })
}
fn v_assume(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let e = cond(&a[0])?;
    assume(ex, st, e)?;
    Ok(Val::I(0))
}
fn v_assert(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let e = cond(&a[0])?;
    let (p, n) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?);
    let id = str_at(ex, st, p, n)?;
    ex.stats.asserts += 1;
    *ex.stats.assert_ids.entry(id.clone()).or_default() += 1;
    if cx().as_const(e) == Some(1) {
        return Ok(Val::I(0));
    }
    ex.stats.asserts_sym += 1;
    let ne = cx().not(e);
    if let Some(m) = ex.sat(st, ne)? {
        ex.violation(st, &m, &id);
    }
    assume(ex, st, e)?;
    Ok(Val::I(0))
}
fn v_cover(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    let id = str_at(ex, st, p, n)?;
    if !st.covers.contains(&id) {
        Rc::make_mut(&mut st.covers).push(id);
    }
    Ok(Val::I(0))
}
fn v_arm(_ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    // vp_arm(crash_at, torn, fault_at, fault_kind)
    st.env.armed = true;
    st.env.opn = 0;
    st.env.fopn = 0;
    st.env.crash_at = a[0].clone();
    st.env.torn = a[1].clone();
    st.env.fault_at = a[2].clone();
    st.env.fault_kind = a[3].clone();
    Ok(Val::I(0))
}
fn v_disarm(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    st.env.armed = false;
    Ok(Val::I(st.env.opn << 32 | st.env.fopn))
}
fn v_clock(_ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    st.env.clock = a[0].clone();
    Ok(Val::I(0))
}
fn v_getclock(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(st.env.clock.clone())
}
fn v_log_len(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(st.env.log.len() as u64))
}
fn v_log_op(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let i = c(ex, st, a, 0)? as usize;
    Ok(Val::I(st.env.log[i].op as u64))
}
fn v_log_x(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let i = c(ex, st, a, 0)? as usize;
    Ok(st.env.log[i].x.clone())
}
fn v_log_path(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let i = c(ex, st, a, 0)? as usize;
    let w = c(ex, st, a, 1)?;
    let buf = c(ex, st, a, 2)?;
    let cap = c(ex, st, a, 3)?;
    let o = if w == 0 { st.env.log[i].a.clone() } else { st.env.log[i].b.clone() };
    let n = o.len().min(cap);
    let s = o.slice(0, n as u32);
    ex.writen(st, buf, &s)?;
    Ok(Val::I(n))
}
fn v_log_add(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let op = c(ex, st, a, 0)?;
    let (p, n) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?);
    let o = ex.readn(st, p, n)?;
    st.env.event(op as u32, Rc::new(o), Rc::new(Obj::default()), a[3].clone());
    Ok(Val::I(0))
}
fn v_log_clear(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    st.env.log = Rc::new(vec![]);
    Ok(Val::I(0))
}
fn v_scripts(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    let mut v = vec![];
    for k in 0..n {
        v.push(ex.read(st, p + 8 * k, 64)?);
    }
    st.env.scripts = Rc::new(v);
    st.env.nscript = 0;
    Ok(Val::I(0))
}
fn v_conc(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    Ok(Val::I(c(ex, st, a, 0)?))
}
fn v_issym(_ex: &mut Exec, _st: &mut State, a: &[Val]) -> R<Val> {
    Ok(Val::I(a[0].is_sym() as u64))
}
fn v_xdev(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    st.env.xdev = if n == 0 { None } else { Some(Rc::new(ex.readn(st, p, n)?)) };
    Ok(Val::I(0))
}
fn v_lockheld(_ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    st.env.lock_ext = a[0].clone();
    Ok(Val::I(0))
}
fn v_trace(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
    let o = ex.readn(st, p, n)?;
    let f = |v: u32| st.model.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
    let s = render(&o, &f);
    if ex.trace {
        eprintln!("[trace] {s}");
    }
    Rc::make_mut(&mut st.env.trace).push(s);
    Ok(Val::I(0))
}
fn v_root(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let buf = c(ex, st, a, 0)?;
    let o = nbytes("/w");
    ex.writen(st, buf, &o)?;
    Ok(Val::I(2))
}
fn v_engine(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(1))
}
fn v_forks(_ex: &mut Exec, st: &mut State, _a: &[Val]) -> R<Val> {
    Ok(Val::I(st.forks as u64))
}

pub fn builtin(n: &str) -> Option<Bi> {
    if n.ends_with("CRYPTO_memcmp") {
        return Some(b_bcmp);
    }
    if n.contains("sha256_block_data_order") {
        return Some(b_sha256);
    }
    if n.contains("OPENSSL_cpuid_setup") {
        return Some(b_zero);
    }
    Some(match n {
        "vp_u64" => v_u64,
        "vp_u8" => v_u8,
        "vp_assume" => v_assume,
        "vp_assert" => v_assert,
        "vp_cover" => v_cover,
        "vp_arm" => v_arm,
        "vp_disarm" => v_disarm,
        "vp_clock" => v_clock,
        "vp_getclock" => v_getclock,
        "vp_log_len" => v_log_len,
        "vp_log_op" => v_log_op,
        "vp_log_x" => v_log_x,
        "vp_log_path" => v_log_path,
        "vp_log_add" => v_log_add,
        "vp_log_clear" => v_log_clear,
        "vp_scripts" => v_scripts,
        "vp_concretize_u64" => v_conc,
        "vp_is_symbolic" => v_issym,
        "vp_set_xdev" => v_xdev,
        "vp_lockheld" => v_lockheld,
        "vp_trace" => v_trace,
        "vp_root" => v_root,
        "vp_engine" => v_engine,
        "vp_forks" => v_forks,
        "vp_render" => v_render,
        "vp_sign" => v_sign,
        "vp_verify" => v_verify,
        "vp_unrender" => v_unrender,
        "bcmp" => b_bcmp,
        "memcmp" => b_memcmp,
        "strlen" => b_strlen,
        "memchr" => b_memchr,
        "memrchr" => b_memrchr,
        "__errno_location" => b_errno,
        "malloc" => b_malloc,
        "calloc" => b_calloc,
        "realloc" => b_realloc,
        "free" => b_free,
        "posix_memalign" => b_memalign,
        "open" | "open64" => b_open,
        "openat64" | "openat" => b_openat,
        "close" => b_close,
        "read" => do_read,
        "write" => b_write,
        "writev" => b_writev,
        "lseek" | "lseek64" => b_lseek,
        "ftruncate" | "ftruncate64" => b_ftruncate,
        "stat64" | "stat" => b_stat,
        "lstat64" | "lstat" => b_lstat,
        "fstat64" | "fstat" => b_fstat,
        "mkdir" => b_mkdir,
        "unlink" => b_unlink,
        "rmdir" => b_rmdir,
        "unlinkat" => b_unlinkat,
        "rename" => b_rename,
        "symlink" => b_symlink,
        "link" => b_link,
        "readlink" => b_readlink,
        "realpath" => b_realpath,
        "getcwd" => b_getcwd,
        "chdir" => b_chdir,
        "utimensat" => b_utimensat,
        "futimens" => b_futimens,
        "utimes" | "lutimes" => b_utimes,
        "fchmod" | "chmod" | "fsync" | "fdatasync" | "sync" => b_fchmod,
        "flock" => b_flock,
        "fcntl" | "fcntl64" => b_fcntl,
        "fdopendir" => b_fdopendir,
        "opendir" => b_opendir,
        "readdir64" => b_readdir,
        "closedir" => b_closedir,
        "dirfd" => b_dirfd,
        "clock_gettime" => b_clock,
        "nanosleep" | "clock_nanosleep" => b_nanosleep,
        "syscall" => b_syscall,
        "getrandom" => b_getrandom,
        "statx" => b_enosys32,
        "copy_file_range" => b_enosys,
        "sendfile64" | "splice" => b_einval,
        "pidfd_spawnp" | "pidfd_getpid" => b_enosys32,
        "__xpg_strerror_r" => b_strerror,
        "sysconf" => b_sysconf,
        "mmap64" | "mmap" => b_mmap,
        "munmap" | "mprotect" | "madvise" => b_zero,
        "gnu_get_libc_version" => b_glibc,
        "getpid" | "gettid" | "getppid" => b_one,
        "getuid" | "geteuid" | "getgid" => b_zero,
        "getenv" | "secure_getenv" => b_zero,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_self" => b_zero,
        "isatty" => b_zero,
        "ioctl" => b_zero,
        "sigemptyset" | "sigaddset" | "signal" | "sigaction" | "pthread_sigmask" => b_zero,
        "pipe2" => b_pipe2,
        "posix_spawnp" | "posix_spawn" => b_spawn,
        "waitpid" => b_waitpid,
        "poll" => b_poll,
        "dup2" => b_dup2,
        "posix_spawnattr_init"
        | "posix_spawnattr_destroy"
        | "posix_spawn_file_actions_init"
        | "posix_spawn_file_actions_destroy"
        | "posix_spawn_file_actions_adddup2"
        | "posix_spawn_file_actions_addchdir_np"
        | "posix_spawn_file_actions_addchdir"
        | "posix_spawnattr_setpgroup"
        | "posix_spawnattr_setflags"
        | "posix_spawnattr_setsigmask"
        | "posix_spawnattr_setsigdefault" => b_zero,
        "dl_iterate_phdr" => b_zero,
        "abort" => b_abort,
        "exit" | "_exit" => b_exit,
        _ => return None,
    })
}

// ---------------------------------------------------------------- overrides of defined functions
fn o_panic_fmt(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    // core::panicking::panic_fmt(args.., &Location)
    let mut s = String::from("panic");
    for v in a.iter().rev() {
        if let Val::I(p) = v {
            if let (Ok(Val::I(fp)), Ok(Val::I(fl)), Ok(Val::I(line))) = (ex.read(st, *p, 64), ex.read(st, *p + 8, 64), ex.read(st, *p + 16, 32)) {
                if fl < 300 {
                    if let Ok(o) = ex.readn(st, fp, fl) {
                        s = format!("panic at {}:{}", String::from_utf8_lossy(&o.data), line);
                        break;
                    }
                }
            }
        }
    }
    Err(Stop::Panic(s))
}
fn o_panic(_ex: &mut Exec, _st: &mut State, _a: &[Val]) -> R<Val> {
    Err(Stop::Panic("panic".into()))
}
/// `<u64>::_fmt(value, buf, len) -> &str`: a symbolic value is rendered as a
/// fixed-width injective 16-letter string instead of forking over decimals.
fn o_fmt64(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let e = match &a[0] {
        Val::E(e) => *e,
        _ => return bad("@passthrough"),
    };
    let buf = c(ex, st, a, 1)?;
    let o = render_obj(e);
    ex.writen(st, buf, &o)?;
    Ok(Val::Agg(Rc::new(vec![Val::I(buf), Val::I(16)])))
}
fn render_obj(e: Eid) -> Obj {
    let mut o = Obj::new(16);
    let k = cx();
    for i in 0..16u32 {
        let nib = k.extract(e, 60 - 4 * i, 4);
        let nib = k.zext(nib, 8);
        let base = k.konst(b'A' as u128, 8);
        let ch = k.bin(Bin::Add, nib, base);
        o.set_sym_byte(i, ch, 0);
    }
    o
}
/// vp_sign(key number, public key, len, message, len, out[256])
fn v_sign(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (kp, kn, mp, mn, op) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?, c(ex, st, a, 3)?, c(ex, st, a, 4)?, c(ex, st, a, 5)?);
    let key = ex.readn(st, kp, kn)?;
    let msg = ex.readn(st, mp, mn)?;
    for (k, m, s) in st.env.sigs.clone().iter() {
        if cx().as_const(bytes_eq(k, &key)) == Some(1) && cx().as_const(bytes_eq(m, &msg)) == Some(1) {
            ex.writen(st, op, s)?;
            return Ok(Val::I(0));
        }
    }
    let mut sig = Obj::new(256);
    let mut x = 0x1234_5678_9abc_def1u64.wrapping_mul(st.env.sigs.len() as u64 + 77);
    for i in 0..32 {
        x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(i as u64 + 1);
        sig.data[8 * i..8 * i + 8].copy_from_slice(&(x ^ (x >> 32)).to_le_bytes());
    }
    ex.writen(st, op, &sig)?;
    Rc::make_mut(&mut st.env.sigs).push((key, msg, sig));
    Ok(Val::I(0))
}
/// vp_verify(public key, len, message, len, signature, len): exactly what was
/// signed with the key verifies.
fn v_verify(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let mut p = [0; 6];
    for i in 0..6 {
        p[i] = c(ex, st, a, i)?;
    }
    let key = ex.readn(st, p[0], p[1])?;
    let msg = ex.readn(st, p[2], p[3])?;
    let sig = ex.readn(st, p[4], p[5])?;
    for (k, m, s) in st.env.sigs.clone().iter() {
        let e = cx().and(bytes_eq(k, &key), bytes_eq(s, &sig));
        let e = cx().and(e, bytes_eq(m, &msg));
        if ex.decide(st, e)? {
            return Ok(Val::I(1));
        }
    }
    Ok(Val::I(0))
}
fn v_render(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 1)?;
    let e = match &a[0] {
        Val::E(e) => *e,
        Val::I(x) => cx().konst(*x as u128, 64),
        _ => return bad("vp_render"),
    };
    let o = render_obj(e);
    ex.writen(st, p, &o)?;
    Ok(Val::I(16))
}
fn v_unrender(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    let k = cx();
    let mut acc: Option<Eid> = None;
    for i in 0..16u64 {
        let b = match ex.read(st, p + i, 8)? {
            Val::I(x) => k.konst(x as u128, 8),
            Val::E(e) => e,
            _ => return bad("vp_unrender"),
        };
        let base = k.konst(b'A' as u128, 8);
        let d = k.bin(Bin::Sub, b, base);
        let nib = k.extract(d, 0, 4);
        acc = Some(match acc {
            None => nib,
            Some(h) => k.concat(h, nib),
        });
    }
    let e = acc.unwrap();
    Ok(match k.as_const(e) {
        Some(v) => Val::I(v as u64),
        None => Val::E(e),
    })
}

/// `Display`/`Debug` of a symbolic 64-bit integer: see `render_obj`.
fn o_disp64(ex: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(ex, st, a, 0)?;
    match ex.read(st, p, 64)? {
        Val::E(_) => bad("@fmt"),
        _ => bad("@passthrough"),
    }
}

pub fn override_fn(f: &FnDecl) -> Option<Bi> {
    let mut p = f.pretty;
    if let Some((a, b)) = p.rsplit_once('.') {
        if !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) {
            p = a;
        }
    }
    if p.is_empty() {
        return None;
    }
    if p == "core::panicking::panic_fmt" || p == "core::panicking::panic_nounwind_fmt" {
        return Some(o_panic_fmt);
    }
    if p.ends_with("rust_begin_unwind") || p.ends_with("::rust_panic") || p.starts_with("std::panicking::rust_panic") || p == "std::process::abort" || p.contains("abort_internal") || p.ends_with("handle_alloc_error") || p.ends_with("handle_error") {
        return Some(o_panic);
    }
    if p == "std_detect::detect::cache::detect_and_initialize" {
        return Some(b_zero);
    }
    if matches!(
        p,
        "<u64 as core::fmt::Display>::fmt"
            | "<usize as core::fmt::Display>::fmt"
            | "<i64 as core::fmt::Display>::fmt"
            | "<u64 as core::fmt::Debug>::fmt"
            | "<usize as core::fmt::Debug>::fmt"
            | "<i64 as core::fmt::Debug>::fmt"
    ) {
        return Some(o_disp64);
    }
    if matches!(p, "<u64>::_fmt" | "<usize>::_fmt") {
        return Some(o_fmt64);
    }
    None
}
