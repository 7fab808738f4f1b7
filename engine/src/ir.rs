//! Parser for the textual LLVM IR emitted by rustc (fat LTO module), compiled lazily per function.
use crate::val::Val;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn size(&self) -> u64 {
        fn up(x: u64, a: u64) -> u64 {
            (x + a - 1) / a * a
        }
        match self {
            Ty::Int(_) | Ty::Vec(..) => up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v.iter() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(v, _) => v.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    X(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Udiv,
    Sdiv,
    Urem,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
    Fadd,
    Fsub,
    Fmul,
    Fdiv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Same,
    U2F,
    S2F,
    F2U,
    F2S,
    Fext,
    Ftrunc,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Opnd),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: u32,
    pub callee: Callee,
    pub args: Vec<Opnd>,
    pub argtys: Vec<Ty>,
    pub ret: Ty,
    pub normal: Option<Edge>,
}

#[derive(Clone, Debug)]
pub struct GepI {
    pub dst: u32,
    pub base: Opnd,
    pub off: i64,
    pub idx: Vec<(Opnd, u64, u32)>,
}

pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, u32, Opnd, Opnd),        // op width dst a b
    VBin(Bin, u32, u32, Opnd, Opnd),       // elementwise, elem width
    Icmp(Pred, u32, u32, Opnd, Opnd),
    VIcmp(Pred, u32, u32, Opnd, Opnd),
    Fcmp(Rc<str>, bool, u32, Opnd, Opnd),  // pred, is64
    Fneg(bool, u32, Opnd),
    Cast(Cast, u32, u32, u32, Opnd),       // kind from to dst
    VCast(Cast, u32, u32, u32, Opnd),
    Bitcast(Rc<(Ty, Ty)>, u32, Opnd),
    Copy(u32, Opnd),
    Gep(Box<GepI>),
    Load(u32, u32, Opnd),                  // dst, width bits, ptr (scalars)
    LoadT(Rc<Ty>, u32, Opnd),
    Store(u32, Opnd, Opnd),                // width val ptr
    StoreT(Rc<Ty>, Opnd, Opnd),
    Alloca(u32, u64),
    Call(Box<CallI>),
    Intr(Rc<str>, u32, u32, Vec<Opnd>),    // name, width of first arg, dst, args
    Select(u32, u32, Opnd, Opnd, Opnd),    // dst, width (0: agg), cond
    VSelect(u32, u32, Opnd, Opnd, Opnd),
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Rc<Ty>, Opnd, Opnd, Vec<u32>),
    ExtEl(u32, Opnd, Opnd),
    InsEl(u32, Rc<Ty>, Opnd, Opnd, Opnd),
    Shuf(u32, Rc<Ty>, Opnd, Opnd, Vec<i32>),
    CmpXchg(u32, u32, Opnd, Opnd, Opnd),   // dst width ptr cmp new
    Rmw(Rc<str>, u32, u32, Opnd, Opnd),    // op width dst ptr val
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(u32, Opnd, Edge, Rc<Vec<(u128, Edge)>>),
    Ret(Option<Opnd>),
    Unreachable,
    Landing,
}

pub struct Func {
    pub idx: u32,
    pub nargs: u32,
    pub nregs: u32,
    pub frame: u32,
    pub blocks: Vec<Vec<I>>,
    pub ret: Ty,
    pub icount: std::cell::Cell<u64>,
}

pub struct FnDecl {
    pub name: &'static str,
    pub pretty: &'static str,
    pub header: &'static str,
    pub body: &'static str,
    pub code: UnsafeCell<Option<Box<Func>>>,
}
pub struct GlobDecl {
    pub name: &'static str,
    pub text: &'static str,
    pub is_const: bool,
    pub weak: bool,
}

unsafe impl Sync for Module {}
unsafe impl Send for Module {}

pub struct Module {
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub exts: Vec<&'static str>,
    pub ext_ix: HashMap<&'static str, u32>,
    pub weak_ext: Vec<bool>,
    pub globs: Vec<GlobDecl>,
    pub glob_ix: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
}

pub const GLOB_BASE: u64 = 0x10;
pub const STACK_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x2000_0000;
pub const FN_BASE: u64 = 0x4000_0000;
pub const EXT_BASE: u64 = 0x5000_0000;

fn unq(s: &'static str) -> &'static str {
    if s.starts_with('"') {
        &s[1..s.len() - 1]
    } else {
        s
    }
}

/// read a name after @ or %: returns (name, rest)
fn name(s: &'static str) -> (&'static str, &'static str) {
    let b = s.as_bytes();
    if b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 2;
        (&s[..e], &s[e..])
    } else {
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'$' | b'-')) {
            i += 1;
        }
        (&s[..i], &s[i..])
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            fns: vec![],
            fn_ix: HashMap::new(),
            exts: vec![],
            ext_ix: HashMap::new(),
            weak_ext: vec![],
            globs: vec![],
            glob_ix: HashMap::new(),
            types: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut last_comment = "";
        while pos < b.len() {
            let eol = memchr(b, pos);
            let line = &text[pos..eol];
            let c = line.as_bytes().first().copied().unwrap_or(b'\n');
            match c {
                b';' => {
                    if !line.starts_with("; Function Attrs") {
                        last_comment = &line[2.min(line.len())..];
                    }
                    pos = eol + 1;
                }
                b'@' => {
                    let (n, rest) = name(&line[1..]);
                    let n = unq(n);
                    let rest = rest.trim_start().trim_start_matches('=').trim_start();
                    let ix = m.globs.len() as u32;
                    let is_const = rest.contains(" constant ") && {
                        let cpos = rest.find(" constant ").unwrap();
                        match rest.find(" global ") {
                            Some(g) => cpos < g,
                            None => true,
                        }
                    };
                    m.globs.push(GlobDecl { name: n, text: rest, is_const, weak: rest.starts_with("extern_weak") });
                    m.glob_ix.insert(n, ix);
                    pos = eol + 1;
                }
                b'%' => {
                    let (n, rest) = name(&line[1..]);
                    if let Some(r) = rest.trim_start().strip_prefix("= type ") {
                        m.types.insert(n, r);
                    }
                    pos = eol + 1;
                }
                b'd' if line.starts_with("declare ") => {
                    let at = line.find('@').unwrap();
                    let (n, _) = name(&line[at + 1..]);
                    let n = unq(n);
                    let ix = m.exts.len() as u32;
                    m.exts.push(n);
                    m.weak_ext.push(line.starts_with("declare extern_weak"));
                    m.ext_ix.insert(n, ix);
                    pos = eol + 1;
                }
                b'd' if line.starts_with("define ") => {
                    let at = line.find('@').unwrap();
                    let (n, _) = name(&line[at + 1..]);
                    let n = unq(n);
                    let end = pos + text[pos..].find("\n}").unwrap();
                    let body = &text[eol + 1..end + 1];
                    let ix = m.fns.len() as u32;
                    m.fns.push(FnDecl { name: n, pretty: last_comment, header: line, body, code: UnsafeCell::new(None) });
                    m.fn_ix.insert(n, ix);
                    last_comment = "";
                    pos = end + 3;
                }
                _ => pos = eol + 1,
            }
        }
        m
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(i) = self.glob_ix.get(n) {
            if self.globs[*i as usize].weak {
                return 0;
            }
            return (GLOB_BASE + *i as u64) << 32;
        }
        if let Some(i) = self.fn_ix.get(n) {
            return (FN_BASE + *i as u64) << 32;
        }
        if let Some(i) = self.ext_ix.get(n) {
            if self.weak_ext[*i as usize] {
                return 0;
            }
            return (EXT_BASE + *i as u64) << 32;
        }
        panic!("unknown symbol @{n}")
    }

    pub fn func(&self, i: u32) -> &Func {
        let d = &self.fns[i as usize];
        unsafe {
            let slot = &mut *d.code.get();
            if slot.is_none() {
                *slot = Some(Box::new(FnParser::parse(self, i, d)));
            }
            slot.as_ref().unwrap()
        }
    }

    /// type and initial bytes of a global
    pub fn glob_init(&self, i: u32) -> Vec<u8> {
        let g = &self.globs[i as usize];
        let mut p = P { m: self, s: g.text, regs: None };
        loop {
            let w = p.word();
            if w == "constant" || w == "global" {
                break;
            }
            if w.is_empty() {
                // parenthesised attr
                if !p.skip_parens() {
                    panic!("glob {}", g.text)
                }
            }
        }
        let ty = p.ty();
        let mut out = vec![0u8; ty.size() as usize];
        if g.text.contains("external global") || g.text.starts_with("extern") {
            return out;
        }
        let v = p.cval(&ty);
        put(&ty, &v, &mut out);
        out
    }
}

fn memchr(b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != b'\n' {
        i += 1;
    }
    i
}

pub fn put(ty: &Ty, v: &Val, out: &mut [u8]) {
    match v {
        Val::I(x) => {
            let n = ty.store_size() as usize;
            if ty.is_agg() {
                assert!(*x == 0);
                return;
            }
            for k in 0..n {
                out[k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
            }
        }
        Val::W(x) => {
            for k in 0..ty.store_size() as usize {
                out[k] = (**x >> (8 * k)) as u8;
            }
        }
        Val::Agg(vs) => {
            for (k, e) in vs.iter().enumerate() {
                let (o, t) = ty.field_off(k);
                let n = t.size() as usize;
                put(&t, e, &mut out[o as usize..o as usize + n]);
            }
        }
        Val::E(_) => panic!(),
    }
}

pub struct P<'a> {
    m: &'a Module,
    s: &'static str,
    regs: Option<&'a mut HashMap<&'static str, u32>>,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        let mut i = 0;
        while i < b.len() && (b[i] == b' ' || b[i] == b'\n' || b[i] == b'\t') {
            i += 1;
        }
        self.s = &self.s[i..];
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.as_bytes().first().copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.s = &self.s[1..];
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, &self.s[..self.s.len().min(80)])
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let b = self.s.as_bytes();
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'-' | b'+' | b'$')) {
            i += 1;
        }
        &self.s[..i]
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.s = &self.s[w.len()..];
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.s = &self.s[w.len()..];
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> bool {
        if self.peek() != b'(' {
            return false;
        }
        let b = self.s.as_bytes();
        let mut d = 0;
        let mut i = 0;
        loop {
            match b[i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                b'"' => {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        self.s = &self.s[i + 1..];
        true
    }
    fn is_ty(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    /// skip attribute words until a type starts
    fn skip_attrs_ty(&mut self) {
        while !self.is_ty() {
            if self.peek() == b'(' {
                self.skip_parens();
            } else if self.peek() == b'#' || self.peek() == b'"' {
                self.s = &self.s[1..];
            } else {
                let w = self.word();
                if w.is_empty() {
                    panic!("skip_attrs at {}", &self.s[..self.s.len().min(100)]);
                }
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.expect(b'{');
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'[' => {
                self.expect(b'[');
                let n: u64 = self.word().parse().unwrap();
                assert_eq!(self.word(), "x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.expect(b'<');
                if self.eat(b'{') {
                    let mut v = vec![];
                    if !self.eat(b'}') {
                        loop {
                            v.push(self.ty());
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    assert_eq!(self.word(), "x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.expect(b'%');
                let (n, r) = name(self.s);
                self.s = r;
                let def = self.m.types.get(n).copied().unwrap_or_else(|| panic!("type %{n}"));
                let mut p = P { m: self.m, s: def, regs: None };
                p.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => panic!("type '{}' at {}", w, &self.s[..self.s.len().min(100)]),
                }
            }
        }
    }

    /// constant of type ty
    pub fn cval(&mut self, ty: &Ty) -> Val {
        match self.val(ty) {
            Opnd::C(x) => Val::I(x),
            Opnd::X(v) => v,
            Opnd::R(_) => panic!("reg in const"),
        }
    }

    fn reg(&mut self, n: &'static str) -> u32 {
        let regs = self.regs.as_mut().unwrap();
        let k = regs.len() as u32;
        *regs.entry(n).or_insert(k)
    }

    pub fn tval(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        let v = self.val(&t);
        (t, v)
    }

    pub fn val(&mut self, ty: &Ty) -> Opnd {
        match self.peek() {
            b'%' => {
                self.expect(b'%');
                let (n, r) = name(self.s);
                self.s = r;
                return Opnd::R(self.reg(n));
            }
            b'@' => {
                self.expect(b'@');
                let (n, r) = name(self.s);
                self.s = r;
                return Opnd::C(self.m.sym_addr(unq(n)));
            }
            b'[' | b'{' | b'<' => {
                let packed = self.s.starts_with("<{");
                let (open, close): (&[u8], &[u8]) = if packed {
                    (b"<{", b"}>")
                } else {
                    match self.peek() {
                        b'[' => (b"[", b"]"),
                        b'{' => (b"{", b"}"),
                        _ => (b"<", b">"),
                    }
                };
                for c in open {
                    self.expect(*c);
                }
                let mut v = vec![];
                if self.peek() != close[0] {
                    loop {
                        let t = self.ty();
                        v.push(self.cval(&t));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                }
                for c in close {
                    self.expect(*c);
                }
                return Opnd::X(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Opnd::C(1),
            "false" => Opnd::C(0),
            "null" | "none" => Opnd::C(0),
            "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
            "c" => {
                // string
                self.expect(b'"');
                let b = self.s.as_bytes();
                let mut out = vec![];
                let mut i = 0;
                while b[i] != b'"' {
                    if b[i] == b'\\' && b[i + 1] == b'\\' {
                        out.push(Val::I(b'\\' as u64));
                        i += 2;
                    } else if b[i] == b'\\' {
                        out.push(Val::I(u64::from_str_radix(&self.s[i + 1..i + 3], 16).unwrap_or_else(|_| panic!("bad int {w:?} in {}", &self.s[..self.s.len().min(200)]))));
                        i += 3;
                    } else {
                        out.push(Val::I(b[i] as u64));
                        i += 1;
                    }
                }
                self.s = &self.s[i + 1..];
                Opnd::X(Val::Agg(Rc::new(out)))
            }
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.cval(&t);
                self.expect(b')');
                let n = ty.nfields();
                Opnd::X(Val::Agg(Rc::new(vec![v; n])))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let (_, base) = self.tval();
                let mut off = match base {
                    Opnd::C(x) => x as i64,
                    _ => panic!(),
                };
                let mut first = true;
                let mut cur = t;
                while self.eat(b',') {
                    let (ity, iv) = self.tval();
                    let ix = match iv {
                        Opnd::C(x) => sext(x, ity.bits()),
                        _ => panic!(),
                    };
                    if first {
                        off += ix * cur.size() as i64;
                        first = false;
                    } else {
                        let (o, t2) = if let Ty::Arr(_, t) = &cur { (ix * t.size() as i64, (**t).clone()) } else { let (o, t) = cur.field_off(ix as usize); (o as i64, t) };
                        off += o;
                        cur = t2;
                    }
                }
                self.expect(b')');
                Opnd::C(off as u64)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.expect(b'(');
                let (_, v) = self.tval();
                assert_eq!(self.word(), "to");
                let t = self.ty();
                self.expect(b')');
                match v {
                    Opnd::C(x) => Opnd::C(mask64(x, t.bits())),
                    o => o,
                }
            }
            "sub" | "add" | "xor" | "and" | "or" | "shl" | "mul" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let (t, a) = self.tval();
                self.expect(b',');
                let (_, b) = self.tval();
                self.expect(b')');
                match (a, b) {
                    (Opnd::C(a), Opnd::C(b)) => Opnd::C(mask64(
                        match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            "shl" => a << b,
                            _ => a.wrapping_mul(b),
                        },
                        t.bits(),
                    )),
                    _ => panic!(),
                }
            }
            _ => match ty {
                Ty::Int(n) => {
                    let v: u128 = if let Some(r) = w.strip_prefix('-') {
                        (r.parse::<u128>().unwrap_or_else(|_| panic!("int {w} at {}", &self.s[..self.s.len().min(60)]))).wrapping_neg()
                    } else {
                        w.parse::<u128>().unwrap_or_else(|_| panic!("int '{w}' at {}", &self.s[..self.s.len().min(60)]))
                    };
                    if *n <= 64 {
                        Opnd::C(mask64(v as u64, *n))
                    } else {
                        Opnd::X(Val::wide(mask128(v, *n)))
                    }
                }
                Ty::F32 | Ty::F64 => {
                    let is64 = *ty == Ty::F64;
                    let f: f64 = match w {
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" | "-qnan" => f64::NAN,
                        _ => {
                            if let Some(h) = w.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
                            } else if let Some(h) = w.strip_prefix("f0x") {
                                let x = u64::from_str_radix(h, 16).unwrap();
                                return Opnd::C(x);
                            } else {
                                w.parse().unwrap_or_else(|_| panic!("float {w}"))
                            }
                        }
                    };
                    Opnd::C(if is64 { f.to_bits() } else { (f as f32).to_bits() as u64 })
                }
                _ => panic!("value '{}' of {:?} at {}", w, ty, &self.s[..self.s.len().min(100)]),
            },
        }
    }
    fn zero(ty: &Ty) -> Opnd {
        match ty {
            Ty::Int(n) if *n > 64 => Opnd::X(Val::wide(0)),
            _ if ty.is_agg() => Opnd::X(zero_val(ty)),
            _ => Opnd::C(0),
        }
    }
}

pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Int(n) if *n > 64 => Val::wide(0),
        _ if ty.is_agg() => {
            let n = ty.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                v.push(zero_val(&ty.field_off(i).1));
            }
            Val::Agg(Rc::new(v))
        }
        _ => Val::I(0),
    }
}

#[inline]
pub fn mask64(x: u64, w: u32) -> u64 {
    if w >= 64 {
        x
    } else {
        x & ((1u64 << w) - 1)
    }
}
#[inline]
pub fn mask128(x: u128, w: u32) -> u128 {
    if w >= 128 {
        x
    } else {
        x & ((1u128 << w) - 1)
    }
}
#[inline]
pub fn sext(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

enum RawI {
    Done(I),
    Phi(u32, Vec<(Opnd, &'static str)>),
    Br(&'static str),
    Cond(Opnd, &'static str, &'static str),
    Switch(u32, Opnd, &'static str, Vec<(u128, &'static str)>),
    Invoke(CallI, &'static str),
    Skip,
}

struct FnParser;
impl FnParser {
    fn parse(m: &Module, idx: u32, d: &FnDecl) -> Func {
        let mut regs: HashMap<&'static str, u32> = HashMap::new();
        // header: return type and args
        let at = {
            let mut depth = 0;
            // first '@' outside parens
            let b = d.header.as_bytes();
            let mut k = 0;
            loop {
                match b[k] {
                    b'(' => depth += 1,
                    b')' => depth -= 1,
                    b'@' if depth == 0 => break,
                    _ => {}
                }
                k += 1;
            }
            k
        };
        let pre = &d.header[7..at];
        let mut p = P { m, s: pre, regs: None };
        p.skip_attrs_ty();
        let ret = p.ty();
        let (_, rest) = name(&d.header[at + 1..]);
        let mut nargs = 0;
        {
            let mut p = P { m, s: rest, regs: Some(&mut regs) };
            p.expect(b'(');
            if !p.eat(b')') {
                loop {
                    if p.peek() == b'.' {
                        panic!("vararg define");
                    }
                    let _t = p.ty();
                    loop {
                        match p.peek() {
                            b'%' => {
                                p.expect(b'%');
                                let (n, r) = name(p.s);
                                p.s = r;
                                p.reg(n);
                                break;
                            }
                            b'(' => {
                                p.skip_parens();
                            }
                            b'"' => {
                                let e = p.s[1..].find('"').unwrap() + 2;
                                p.s = &p.s[e..];
                            }
                            b',' | b')' => {
                                // unnamed
                                let nm: &'static str = Box::leak(format!("{nargs}").into_boxed_str());
                                p.reg(nm);
                                break;
                            }
                            _ => {
                                let w = p.word();
                                if w.is_empty() {
                                    p.s = &p.s[1..];
                                }
                            }
                        }
                    }
                    nargs += 1;
                    if !p.eat(b',') {
                        break;
                    }
                }
            }
        }
        // blocks
        let mut lines: Vec<&'static str> = vec![];
        {
            let b = d.body;
            let mut start = 0;
            let bytes = b.as_bytes();
            while start < bytes.len() {
                let e = memchr(bytes, start);
                lines.push(&b[start..e]);
                start = e + 1;
            }
        }
        let mut blocks: Vec<(&'static str, Vec<RawI>)> = vec![];
        let mut frame: u64 = 0;
        let mut i = 0;
        let first_label: &'static str = Box::leak(format!("{nargs}").into_boxed_str());
        while i < lines.len() {
            let l = lines[i];
            if l.is_empty() || l.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let (n, _) = name(l);
                blocks.push((n, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((first_label, vec![]));
            }
            let t = l.trim_start();
            if t.starts_with('#') {
                i += 1;
                continue;
            }
            // join continuation
            let mut end = i + 1;
            if t.starts_with("switch ") && !t.contains(']') {
                while !lines[end].trim_start().starts_with(']') {
                    end += 1;
                }
                end += 1;
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                if !t.contains(" unwind label ") {
                    end += 1;
                }
            } else if t.contains("= landingpad ") {
                while end < lines.len() {
                    let n = lines[end].trim_start();
                    if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                        end += 1
                    } else {
                        break;
                    }
                }
            }
            let a = l.as_ptr() as usize;
            let last = lines[end - 1];
            let z = last.as_ptr() as usize + last.len();
            let off = a - d.body.as_ptr() as usize;
            let text: &'static str = &d.body[off..off + (z - a)];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Self::instr(m, &mut regs, &mut frame, text)));
            match r {
                Ok(r) => blocks.last_mut().unwrap().1.push(r),
                Err(_) => {
                    eprintln!("while parsing {}: {}", d.name, text);
                    std::process::exit(2);
                }
            }
            i = end;
        }
        let ix: HashMap<&'static str, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0, i as u32)).collect();
        let mut phis: Vec<Vec<(u32, Vec<(Opnd, &'static str)>)>> = vec![];
        for b in blocks.iter_mut() {
            let mut v = vec![];
            for r in b.1.iter_mut() {
                if let RawI::Phi(d, xs) = r {
                    v.push((*d, std::mem::take(xs)));
                }
            }
            phis.push(v);
        }
        let edge = |from: &'static str, to: &'static str| -> Edge {
            let t = *ix.get(to).unwrap_or_else(|| panic!("label {to}"));
            let mut c = vec![];
            for (d, xs) in &phis[t as usize] {
                let o = xs.iter().find(|x| x.1 == from).expect("phi pred").0.clone();
                if let Opnd::R(r) = o {
                    if r == *d {
                        continue;
                    }
                }
                c.push((*d, o));
            }
            Edge { target: t, copies: c.into_boxed_slice() }
        };
        let mut out = vec![];
        for (n, is) in blocks {
            let mut v = Vec::with_capacity(is.len());
            for r in is {
                match r {
                    RawI::Done(i) => v.push(i),
                    RawI::Phi(..) | RawI::Skip => {}
                    RawI::Br(l) => v.push(I::Br(edge(n, l))),
                    RawI::Cond(c, a, b) => v.push(I::CondBr(c, edge(n, a), edge(n, b))),
                    RawI::Switch(w, c, dflt, cs) => {
                        v.push(I::Switch(w, c, edge(n, dflt), Rc::new(cs.into_iter().map(|(k, l)| (k, edge(n, l))).collect())))
                    }
                    RawI::Invoke(mut c, l) => {
                        c.normal = Some(edge(n, l));
                        v.push(I::Call(Box::new(c)));
                    }
                }
            }
            out.push(v);
        }
        Func { idx, nargs, nregs: regs.len() as u32, frame: frame as u32, blocks: out, ret, icount: std::cell::Cell::new(0) }
    }

    fn label(p: &mut P) -> &'static str {
        assert_eq!(p.word(), "label");
        p.expect(b'%');
        let (n, r) = name(p.s);
        p.s = r;
        n
    }

    fn instr(m: &Module, regs: &mut HashMap<&'static str, u32>, frame: &mut u64, text: &'static str) -> RawI {
        let mut p = P { m, s: text, regs: Some(regs) };
        let mut dst = NODST;
        if p.peek() == b'%' {
            p.expect(b'%');
            let (n, r) = name(p.s);
            p.s = r;
            dst = p.reg(n);
            p.expect(b'=');
        }
        let op = p.word();
        use RawI::*;
        let fl = ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile", "atomic", "weak"];
        let skipf = |p: &mut P| loop {
            let w = p.peek_word();
            if fl.contains(&w) || w == "inrange" {
                p.word();
                if w == "inrange" {
                    p.skip_parens();
                }
            } else {
                break;
            }
        };
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::Udiv),
            "sdiv" => Some(Bin::Sdiv),
            "urem" => Some(Bin::Urem),
            "srem" => Some(Bin::Srem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::Lshr),
            "ashr" => Some(Bin::Ashr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::Fadd),
            "fsub" => Some(Bin::Fsub),
            "fmul" => Some(Bin::Fmul),
            "fdiv" => Some(Bin::Fdiv),
            _ => None,
        };
        if let Some(b) = bin {
            skipf(&mut p);
            let t = p.ty();
            let x = p.val(&t);
            p.expect(b',');
            let y = p.val(&t);
            return Done(if let Ty::Vec(_, e) = &t { I::VBin(b, e.bits(), dst, x, y) } else { I::Bin(b, t.bits(), dst, x, y) });
        }
        match op {
            "icmp" => {
                skipf(&mut p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    w => panic!("icmp {w}"),
                };
                let t = p.ty();
                let x = p.val(&t);
                p.expect(b',');
                let y = p.val(&t);
                Done(if let Ty::Vec(_, e) = &t { I::VIcmp(pr, e.bits(), dst, x, y) } else { I::Icmp(pr, t.bits(), dst, x, y) })
            }
            "fcmp" => {
                skipf(&mut p);
                let pr = p.word();
                let t = p.ty();
                let x = p.val(&t);
                p.expect(b',');
                let y = p.val(&t);
                Done(I::Fcmp(pr.into(), t == Ty::F64, dst, x, y))
            }
            "fneg" => {
                skipf(&mut p);
                let t = p.ty();
                let x = p.val(&t);
                Done(I::Fneg(t == Ty::F64, dst, x))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                skipf(&mut p);
                let (t, x) = p.tval();
                assert_eq!(p.word(), "to");
                let t2 = p.ty();
                if op == "bitcast" {
                    return Done(I::Bitcast(Rc::new((t, t2)), dst, x));
                }
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "uitofp" => Cast::U2F,
                    "sitofp" => Cast::S2F,
                    "fptoui" => Cast::F2U,
                    "fptosi" => Cast::F2S,
                    "fpext" => Cast::Fext,
                    "fptrunc" => Cast::Ftrunc,
                    _ => {
                        if t.bits() > t2.bits() {
                            Cast::Trunc
                        } else if t.bits() < t2.bits() {
                            Cast::Zext
                        } else {
                            Cast::Same
                        }
                    }
                };
                Done(match (&t, &t2) {
                    (Ty::Vec(_, a), Ty::Vec(_, b)) => I::VCast(k, a.bits(), b.bits(), dst, x),
                    _ => I::Cast(k, t.bits(), t2.bits(), dst, x),
                })
            }
            "freeze" => {
                let (_, x) = p.tval();
                Done(I::Copy(dst, x))
            }
            "getelementptr" => {
                skipf(&mut p);
                let t = p.ty();
                p.expect(b',');
                let (_, base) = p.tval();
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (ity, iv) = p.tval();
                    let (elt, dynamic) = if first {
                        (cur.clone(), true)
                    } else {
                        match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => ((**e).clone(), true),
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Opnd::C(x) => *x as usize,
                                    _ => panic!(),
                                };
                                let (o, t2) = cur.field_off(k);
                                off += o as i64;
                                (t2, false)
                            }
                            _ => panic!("gep into {:?}", cur),
                        }
                    };
                    if dynamic {
                        match iv {
                            Opnd::C(x) => off += sext(x, ity.bits()).wrapping_mul(elt.size() as i64),
                            o => idx.push((o, elt.size(), ity.bits())),
                        }
                    }
                    first = false;
                    cur = elt;
                }
                Done(I::Gep(Box::new(GepI { dst, base, off, idx })))
            }
            "load" => {
                skipf(&mut p);
                let t = p.ty();
                p.expect(b',');
                let (_, q) = p.tval();
                Done(if t.is_agg() || t.bits() > 128 { I::LoadT(Rc::new(t), dst, q) } else { I::Load(dst, t.bits(), q) })
            }
            "store" => {
                skipf(&mut p);
                let (t, v) = p.tval();
                p.expect(b',');
                let (_, q) = p.tval();
                Done(if t.is_agg() { I::StoreT(Rc::new(t), v, q) } else { I::Store(t.bits(), v, q) })
            }
            "alloca" => {
                let t = p.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while p.eat(b',') {
                    if p.eat_word("align") {
                        al = p.word().parse().unwrap();
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = p.tval();
                        n = match v {
                            Opnd::C(x) => x,
                            _ => panic!("dynamic alloca"),
                        };
                    }
                }
                let o = (*frame + al - 1) / al * al;
                *frame = o + (t.size() * n).max(1);
                Done(I::Alloca(dst, o))
            }
            "select" => {
                skipf(&mut p);
                let (ct, c) = p.tval();
                p.expect(b',');
                let (t, a) = p.tval();
                p.expect(b',');
                let (_, b) = p.tval();
                if let Ty::Vec(_, e) = &t {
                    if matches!(ct, Ty::Vec(..)) {
                        return Done(I::VSelect(dst, e.bits(), c, a, b));
                    }
                }
                Done(I::Select(dst, if t.is_agg() { 0 } else { t.bits() }, c, a, b))
            }
            "phi" => {
                skipf(&mut p);
                let t = p.ty();
                let mut v = vec![];
                loop {
                    p.expect(b'[');
                    let x = p.val(&t);
                    p.expect(b',');
                    p.expect(b'%');
                    let (n, r) = name(p.s);
                    p.s = r;
                    p.expect(b']');
                    v.push((x, n));
                    if !p.eat(b',') || p.peek() != b'[' {
                        break;
                    }
                }
                Phi(dst, v)
            }
            "extractvalue" => {
                let (_, a) = p.tval();
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Done(I::Extract(dst, a, ix))
            }
            "insertvalue" => {
                let (t, a) = p.tval();
                p.expect(b',');
                let (_, v) = p.tval();
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Done(I::Insert(dst, Rc::new(t), a, v, ix))
            }
            "extractelement" => {
                let (_, a) = p.tval();
                p.expect(b',');
                let (_, i) = p.tval();
                Done(I::ExtEl(dst, a, i))
            }
            "insertelement" => {
                let (t, a) = p.tval();
                p.expect(b',');
                let (_, v) = p.tval();
                p.expect(b',');
                let (_, i) = p.tval();
                Done(I::InsEl(dst, Rc::new(t), a, v, i))
            }
            "shufflevector" => {
                let (t, a) = p.tval();
                p.expect(b',');
                let (_, b) = p.tval();
                p.expect(b',');
                let (_, mk) = p.tval();
                let mask = match mk {
                    Opnd::X(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Done(I::Shuf(dst, Rc::new(t), a, b, mask))
            }
            "cmpxchg" => {
                skipf(&mut p);
                let (_, q) = p.tval();
                p.expect(b',');
                let (t, c) = p.tval();
                p.expect(b',');
                let (_, n) = p.tval();
                Done(I::CmpXchg(dst, t.bits(), q, c, n))
            }
            "atomicrmw" => {
                skipf(&mut p);
                let o = p.word();
                let (_, q) = p.tval();
                p.expect(b',');
                let (t, v) = p.tval();
                Done(I::Rmw(o.into(), t.bits(), dst, q, v))
            }
            "fence" => Skip,
            "br" => {
                if p.peek_word() == "label" {
                    Br(Self::label(&mut p))
                } else {
                    let (_, c) = p.tval();
                    p.expect(b',');
                    let a = Self::label(&mut p);
                    p.expect(b',');
                    let b = Self::label(&mut p);
                    Cond(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = p.tval();
                p.expect(b',');
                let d = Self::label(&mut p);
                p.expect(b'[');
                let mut v = vec![];
                while p.peek() != b']' {
                    let (_, k) = p.tval();
                    p.expect(b',');
                    let l = Self::label(&mut p);
                    v.push((
                        match k {
                            Opnd::C(x) => x as u128,
                            Opnd::X(Val::I(x)) => x as u128,
                            Opnd::X(Val::W(x)) => *x,
                            k => panic!("switch const {k:?}"),
                        },
                        l,
                    ));
                }
                Switch(t.bits(), c, d, v)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    Done(I::Ret(None))
                } else {
                    let v = p.val(&t);
                    Done(I::Ret(Some(v)))
                }
            }
            "unreachable" => Done(I::Unreachable),
            "landingpad" | "resume" => Done(I::Landing),
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    p.word();
                }
                p.skip_attrs_ty();
                let ret = p.ty();
                if p.peek() == b'(' {
                    p.skip_parens(); // function type
                }
                let callee;
                let mut intr: Option<&'static str> = None;
                match p.peek() {
                    b'@' => {
                        p.expect(b'@');
                        let (n, r) = name(p.s);
                        p.s = r;
                        let n = unq(n);
                        if let Some(r) = n.strip_prefix("llvm.") {
                            intr = Some(r);
                            callee = Callee::Ext(0);
                        } else if let Some(i) = m.fn_ix.get(n) {
                            callee = Callee::Fn(*i);
                        } else {
                            callee = Callee::Ext(*m.ext_ix.get(n).unwrap_or_else(|| panic!("callee {n}")));
                        }
                    }
                    b'%' => {
                        let o = p.val(&Ty::Ptr);
                        callee = Callee::Ind(o);
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            p.word();
                            while p.peek() != b'"' {
                                p.word();
                            }
                            let e = p.s[1..].find('"').unwrap() + 2;
                            let a = &p.s[..e];
                            p.s = &p.s[e..];
                            p.expect(b',');
                            let e = p.s.trim_start()[1..].find('"').unwrap() + 2;
                            p.ws();
                            p.s = &p.s[e..];
                            callee = Callee::Asm(a.into());
                        } else {
                            let o = p.val(&Ty::Ptr);
                            callee = Callee::Ind(o);
                        }
                    }
                }
                if let Some(n) = intr {
                    if n.starts_with("lifetime") || n.starts_with("experimental") || n.starts_with("assume") || n.starts_with("dbg") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") || n.starts_with("donothing") {
                        if op == "invoke" {
                            panic!("invoke intrinsic");
                        }
                        return Skip;
                    }
                }
                p.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = p.ty();
                        // attributes
                        loop {
                            let c = p.peek();
                            if c == b'(' {
                                p.skip_parens();
                                continue;
                            }
                            let w = p.peek_word();
                            match w {
                                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "zeroext" | "signext" | "captures" | "immarg" | "returned" | "nocapture" | "readnone" | "writable"
                                | "dead_on_unwind" | "dead_on_return" | "inreg" | "nest" | "allocalign" | "allocptr" | "nofpclass" => {
                                    p.word();
                                }
                                "align" => {
                                    p.word();
                                    if p.peek() != b'(' {
                                        p.word();
                                    }
                                }
                                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "initializes" | "elementtype" | "byref" => {
                                    p.word();
                                    p.skip_parens();
                                }
                                _ => break,
                            }
                        }
                        let v = p.val(&t);
                        args.push(v);
                        tys.push(t);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b')');
                }
                if let Some(n) = intr {
                    let w = tys.first().map(|t| if let Ty::Vec(_, e) = t { e.bits() } else { t.bits() }).unwrap_or(0);
                    if n.starts_with("threadlocal.address") {
                        return Done(I::Copy(dst, args[0].clone()));
                    }
                    return Done(I::Intr(n.into(), w, dst, args));
                }
                let c = CallI { dst, callee, args, argtys: tys, ret, normal: None };
                if op == "invoke" {
                    // "to label %x unwind label %y"
                    let q = p.s.find(" to label ").map(|k| &p.s[k + 4..]).or_else(|| p.s.find("to label ").map(|k| &p.s[k + 3..])).unwrap();
                    p.s = q;
                    let l = Self::label(&mut p);
                    Invoke(c, l)
                } else {
                    Done(I::Call(Box::new(c)))
                }
            }
            _ => panic!("op {op}"),
        }
    }
}
