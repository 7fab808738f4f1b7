//! Hash-consed bit-vector expressions with a simplifier and an unsigned interval analysis.
use crate::ir::{mask128, Bin, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    ConstW,
    Var,
    Bin(Bin),
    Cmp(Pred), // only Eq, Ult, Ule, Slt, Sle
    Ite,
    Zext,
    Sext,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    pub e: Eid,
}

pub struct Cx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid>,
    wide: Vec<u128>,
    widemap: HashMap<u128, u32>,
    pub vars: Vec<VarInfo>,
    pub var_ix: HashMap<String, u32>,
    ivs: Vec<(u64, u64)>,
    varsets: HashMap<Eid, Rc<Vec<u32>>>,
}

static mut CX: Option<Box<Cx>> = None;
pub fn cx() -> &'static mut Cx {
    unsafe {
        let p = &raw mut CX;
        if (*p).is_none() {
            *p = Some(Box::new(Cx {
                nodes: vec![],
                map: HashMap::new(),
                wide: vec![],
                widemap: HashMap::new(),
                vars: vec![],
                var_ix: HashMap::new(),
                ivs: vec![],
                varsets: HashMap::new(),
            }));
        }
        (*p).as_mut().unwrap()
    }
}

fn ones(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn conc_bin(op: Bin, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::Udiv => {
            if b == 0 {
                mask128(u128::MAX, w)
            } else {
                a / b
            }
        }
        Bin::Urem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::Sdiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Bin::Srem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bin::Lshr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::Ashr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        _ => panic!("float bin"),
    };
    mask128(r, w)
}

pub fn conc_cmp(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Cx {
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as u32;
        let iv = self.calc_iv(&n);
        self.nodes.push(n);
        self.ivs.push(iv);
        self.map.insert(n, e);
        if n.op != Op::Const && n.w <= 64 && iv.0 == iv.1 {
            // unique value: fold
            let k = self.konst(iv.0 as u128, n.w as u32);
            self.map.insert(n, k);
            return k;
        }
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Eid {
        if w <= 64 {
            let v = v as u64;
            let n = Node { op: Op::Const, w: w as u16, a: v as u32, b: (v >> 32) as u32, c: 0 };
            if let Some(&e) = self.map.get(&n) {
                return e;
            }
            let e = self.nodes.len() as u32;
            self.nodes.push(n);
            self.ivs.push((v, v));
            self.map.insert(n, e);
            e
        } else {
            let k = match self.widemap.get(&v) {
                Some(k) => *k,
                None => {
                    let k = self.wide.len() as u32;
                    self.wide.push(v);
                    self.widemap.insert(v, k);
                    k
                }
            };
            self.intern(Node { op: Op::ConstW, w: w as u16, a: k, b: 0, c: 0 })
        }
    }
    pub fn tt(&mut self) -> Eid {
        self.konst(1, 1)
    }
    pub fn ff(&mut self) -> Eid {
        self.konst(0, 1)
    }
    pub fn as_const(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => Some((n.a as u64 | (n.b as u64) << 32) as u128),
            Op::ConstW => Some(self.wide[n.a as usize]),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, w: u32, lo: u64, hi: u64) -> Eid {
        if let Some(&v) = self.var_ix.get(name) {
            let vi = &self.vars[v as usize];
            assert!(vi.w == w && vi.lo == lo && vi.hi == hi, "variable {name} re-declared with a different range");
            return vi.e;
        }
        if lo == hi {
            return self.konst(lo as u128, w);
        }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.into(), w, lo, hi, e: 0 });
        self.var_ix.insert(name.into(), v);
        let e = self.intern(Node { op: Op::Var, w: w as u16, a: v, b: 0, c: 0 });
        self.vars[v as usize].e = e;
        e
    }
    pub fn iv(&self, e: Eid) -> (u64, u64) {
        self.ivs[e as usize]
    }

    fn calc_iv(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        if w > 64 {
            return (0, u64::MAX);
        }
        let full = (0, ones(w));
        let iv = |e: u32| self.ivs[e as usize];
        match n.op {
            Op::Const => {
                let v = n.a as u64 | (n.b as u64) << 32;
                (v, v)
            }
            Op::ConstW => full,
            Op::Var => {
                let v = &self.vars[n.a as usize];
                (v.lo, v.hi)
            }
            Op::Ite => {
                let (a, b) = (iv(n.b), iv(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Zext => iv(n.a),
            Op::Sext => {
                let f = self.w(n.a);
                let a = iv(n.a);
                if a.1 < 1u64 << (f - 1) {
                    a
                } else if a.0 >= 1u64 << (f - 1) {
                    let m = ones(w) & !ones(f);
                    (a.0 | m, a.1 | m)
                } else {
                    full
                }
            }
            Op::Extract => {
                if self.w(n.a) > 64 {
                    return full;
                }
                let a = iv(n.a);
                let (l, h) = (a.0 >> n.b, a.1 >> n.b);
                if h - l <= ones(w) && (l & !ones(w)) == (h & !ones(w)) {
                    (l & ones(w), h & ones(w))
                } else {
                    full
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let (h, l) = (iv(n.a), iv(n.b));
                (h.0 << lw | l.0, h.1 << lw | l.1)
            }
            Op::Cmp(p) => {
                let ow = self.w(n.a);
                if ow > 64 {
                    return full;
                }
                match self.iv_cmp(p, n.a, n.b, ow) {
                    Some(b) => (b as u64, b as u64),
                    None => full,
                }
            }
            Op::Bin(b) => {
                let (x, y) = (iv(n.a), iv(n.b));
                match b {
                    Bin::Add => match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                        (Some(l), Some(h)) if h <= ones(w) => (l, h),
                        _ => {
                            // both wrap exactly once?
                            let l = x.0 as u128 + y.0 as u128;
                            let h = x.1 as u128 + y.1 as u128;
                            let m = ones(w) as u128 + 1;
                            if l >= m && h < 2 * m {
                                ((l - m) as u64, (h - m) as u64)
                            } else {
                                full
                            }
                        }
                    },
                    Bin::Sub => {
                        if x.0 >= y.1 {
                            (x.0 - y.1, x.1 - y.0)
                        } else {
                            full
                        }
                    }
                    Bin::Mul => match x.1.checked_mul(y.1) {
                        Some(h) if h <= ones(w) => (x.0 * y.0, h),
                        _ => full,
                    },
                    Bin::Udiv if y.0 > 0 => (x.0 / y.1, x.1 / y.0),
                    Bin::Urem if y.0 > 0 => {
                        if x.1 < y.0 {
                            x
                        } else {
                            (0, (y.1 - 1).min(x.1))
                        }
                    }
                    Bin::Sdiv | Bin::Srem => full,
                    Bin::Shl if y.0 == y.1 && y.0 < w as u64 => {
                        if x.1 <= ones(w) >> y.0 {
                            (x.0 << y.0, x.1 << y.0)
                        } else {
                            full
                        }
                    }
                    Bin::Lshr if y.0 == y.1 && y.0 < w as u64 => (x.0 >> y.0, x.1 >> y.0),
                    Bin::And => (0, x.1.min(y.1)),
                    Bin::Or => {
                        let m = x.1 | y.1;
                        let h = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                        (x.0.max(y.0), h)
                    }
                    Bin::Xor => {
                        let m = x.1 | y.1;
                        (0, if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() })
                    }
                    _ => full,
                }
            }
        }
    }

    fn iv_cmp(&self, p: Pred, a: Eid, b: Eid, w: u32) -> Option<bool> {
        let (x, y) = (self.ivs[a as usize], self.ivs[b as usize]);
        match p {
            Pred::Eq => {
                if x.1 < y.0 || y.1 < x.0 {
                    Some(false)
                } else if x.0 == x.1 && x == y {
                    Some(true)
                } else {
                    None
                }
            }
            Pred::Ult => {
                if x.1 < y.0 {
                    Some(true)
                } else if x.0 >= y.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Pred::Ule => {
                if x.1 <= y.0 {
                    Some(true)
                } else if x.0 > y.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Pred::Slt | Pred::Sle => {
                let s = 1u64 << (w - 1);
                // to signed intervals when not crossing
                let f = |i: (u64, u64)| -> Option<(u64, u64)> {
                    if i.1 < s || i.0 >= s {
                        Some((i.0 ^ s, i.1 ^ s))
                    } else {
                        None
                    }
                };
                let x = f(x).unwrap_or((0, ones(w)));
                let y = f(y).unwrap_or((0, ones(w)));
                if p == Pred::Slt {
                    if x.1 < y.0 {
                        Some(true)
                    } else if x.0 >= y.1 {
                        Some(false)
                    } else {
                        None
                    }
                } else if x.1 <= y.0 {
                    Some(true)
                } else if x.0 > y.1 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert!(self.w(a) == 1);
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst((n.a ^ 1) as u128, 1),
            Op::Cmp(Pred::Ult) => self.mk_cmp(Pred::Ule, n.b, n.a),
            Op::Cmp(Pred::Ule) => self.mk_cmp(Pred::Ult, n.b, n.a),
            Op::Cmp(Pred::Slt) => self.mk_cmp(Pred::Sle, n.b, n.a),
            Op::Cmp(Pred::Sle) => self.mk_cmp(Pred::Slt, n.b, n.a),
            Op::Bin(Bin::Xor) if self.as_const(n.b) == Some(1) => n.a,
            _ => {
                let t = self.tt();
                self.intern(Node { op: Op::Bin(Bin::Xor), w: 1, a, b: t, c: 0 })
            }
        }
    }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Bin::Or, a, b)
    }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        self.cmp(Pred::Eq, a, b)
    }
    fn mk_cmp(&mut self, p: Pred, a: Eid, b: Eid) -> Eid {
        self.intern(Node { op: Op::Cmp(p), w: 1, a, b, c: 0 })
    }

    pub fn cmp(&mut self, p: Pred, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(conc_cmp(p, x, y, w) as u128, 1);
        }
        if a == b {
            return self.konst(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
        }
        if w <= 64 {
            if let Some(r) = self.iv_cmp(p, a, b, w) {
                return self.konst(r as u128, 1);
            }
            // signed with both non negative -> unsigned
            if matches!(p, Pred::Slt | Pred::Sle) {
                let s = 1u64 << (w - 1);
                if self.iv(a).1 < s && self.iv(b).1 < s {
                    return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, a, b);
                }
            }
        }
        // put constant on the right for eq
        let (a, b) = if p == Pred::Eq && self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let na = self.n(a);
        let nb = self.n(b);
        if p == Pred::Eq {
            if let Some(k) = self.as_const(b) {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    Op::Ite => {
                        let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                        if x.is_some() || y.is_some() {
                            let ex = self.cmp(Pred::Eq, na.b, b);
                            let ey = self.cmp(Pred::Eq, na.c, b);
                            return self.ite(na.a, ex, ey);
                        }
                    }
                    Op::Zext => {
                        let f = self.w(na.a);
                        if k >> f != 0 {
                            return self.ff();
                        }
                        let kk = self.konst(k, f);
                        return self.cmp(Pred::Eq, na.a, kk);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b);
                        let kh = self.konst(k >> lw, w - lw);
                        let kl = self.konst(mask128(k, lw), lw);
                        let e1 = self.cmp(Pred::Eq, na.a, kh);
                        let e2 = self.cmp(Pred::Eq, na.b, kl);
                        return self.and(e1, e2);
                    }
                    Op::Bin(Bin::Add) => {
                        if let Some(c) = self.as_const(na.b) {
                            let kk = self.konst(mask128(k.wrapping_sub(c), w), w);
                            return self.cmp(Pred::Eq, na.a, kk);
                        }
                    }
                    Op::Bin(Bin::Xor) => {
                        if let Some(c) = self.as_const(na.b) {
                            let kk = self.konst(k ^ c, w);
                            return self.cmp(Pred::Eq, na.a, kk);
                        }
                    }
                    Op::Bin(Bin::Sub) => {
                        if let Some(c) = self.as_const(na.a) {
                            let kk = self.konst(mask128(c.wrapping_sub(k), w), w);
                            return self.cmp(Pred::Eq, na.b, kk);
                        }
                    }
                    Op::Bin(Bin::Mul) if w <= 64 => {
                        // non-overflowing multiple of a constant
                        if let Some(c) = self.as_const(na.b) {
                            let hi = self.iv(na.a).1;
                            if c != 0 && (hi as u128) * c <= ones(w) as u128 {
                                if k % c != 0 {
                                    return self.ff();
                                }
                                let kk = self.konst(k / c, w);
                                return self.cmp(Pred::Eq, na.a, kk);
                            }
                        }
                    }
                    Op::Bin(Bin::Or) if k == 0 => {
                        let z = self.konst(0, w);
                        let e1 = self.cmp(Pred::Eq, na.a, z);
                        let e2 = self.cmp(Pred::Eq, na.b, z);
                        return self.and(e1, e2);
                    }
                    _ => {}
                }
            } else {
                // x + c == x + d etc
                if let (Op::Bin(Bin::Add), Op::Bin(Bin::Add)) = (na.op, nb.op) {
                    if na.a == nb.a {
                        return self.cmp(Pred::Eq, na.b, nb.b);
                    }
                    if na.b == nb.b {
                        return self.cmp(Pred::Eq, na.a, nb.a);
                    }
                }
                if let Op::Bin(Bin::Add) = na.op {
                    if na.a == b {
                        let z = self.konst(0, w);
                        return self.cmp(Pred::Eq, na.b, z);
                    }
                }
                if let Op::Bin(Bin::Add) = nb.op {
                    if nb.a == a {
                        let z = self.konst(0, w);
                        return self.cmp(Pred::Eq, nb.b, z);
                    }
                }
                if let (Op::Zext, Op::Zext) = (na.op, nb.op) {
                    if self.w(na.a) == self.w(nb.a) {
                        return self.cmp(Pred::Eq, na.a, nb.a);
                    }
                }
                if let (Op::Concat, Op::Concat) = (na.op, nb.op) {
                    if self.w(na.b) == self.w(nb.b) {
                        let e1 = self.cmp(Pred::Eq, na.a, nb.a);
                        let e2 = self.cmp(Pred::Eq, na.b, nb.b);
                        return self.and(e1, e2);
                    }
                }
                if w == 1 {
                    let x = self.bin(Bin::Xor, a, b);
                    return self.not(x);
                }
            }
            let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
            return self.mk_cmp(p, a, b);
        }
        // ult / ule through zext
        if matches!(p, Pred::Ult | Pred::Ule) {
            if let (Op::Zext, Op::Zext) = (na.op, nb.op) {
                if self.w(na.a) == self.w(nb.a) {
                    return self.cmp(p, na.a, nb.a);
                }
            }
            if let (Op::Zext, Some(k)) = (na.op, self.as_const(b)) {
                let f = self.w(na.a);
                if k >> f == 0 {
                    let kk = self.konst(k, f);
                    return self.cmp(p, na.a, kk);
                }
            }
            if let (Some(k), Op::Zext) = (self.as_const(a), nb.op) {
                let f = self.w(nb.a);
                if k >> f == 0 {
                    let kk = self.konst(k, f);
                    return self.cmp(p, kk, nb.a);
                }
            }
            // x < 1  ->  x == 0
            if p == Pred::Ult && self.as_const(b) == Some(1) {
                let z = self.konst(0, w);
                return self.cmp(Pred::Eq, a, z);
            }
            // (x + c) <u k with no overflow in x + c handled by solver
            if let (Op::Ite, Some(_)) = (na.op, self.as_const(b)) {
                if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                    let e1 = self.cmp(p, na.b, b);
                    let e2 = self.cmp(p, na.c, b);
                    return self.ite(na.a, e1, e2);
                }
            }
            if let (Op::Ite, Some(_)) = (nb.op, self.as_const(a)) {
                if self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
                    let e1 = self.cmp(p, a, nb.b);
                    let e2 = self.cmp(p, a, nb.c);
                    return self.ite(nb.a, e1, e2);
                }
            }
        }
        self.mk_cmp(p, a, b)
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Bin(Bin::Xor) && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let f = self.w(a);
        if f == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(k, w);
        }
        let n = self.n(a);
        match n.op {
            Op::Zext => return self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Zext, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let f = self.w(a);
        if f == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(mask128(sx(k, f) as u128, w), w);
        }
        if f <= 64 && f > 1 && self.iv(a).1 < 1u64 << (f - 1) {
            return self.zext(a, w);
        }
        let n = self.n(a);
        if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if f == 1 {
            let x = self.konst(mask128(u128::MAX, w), w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        self.intern(Node { op: Op::Sext, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let f = self.w(a);
        debug_assert!(lo + w <= f);
        if lo == 0 && f == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(mask128(k >> lo, w), w);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Zext => {
                let g = self.w(n.a);
                if lo >= g {
                    return self.konst(0, w);
                }
                if lo + w <= g {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.zext(n.a, w);
                }
                let x = self.extract(n.a, lo, g - lo);
                return self.zext(x, w);
            }
            Op::Sext if lo + w <= self.w(n.a) => return self.extract(n.a, lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Bin(b @ (Bin::And | Bin::Or | Bin::Xor)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(b, x, y);
            }
            Op::Bin(b @ (Bin::Add | Bin::Sub)) if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(b, x, y);
            }
            Op::Bin(Bin::Shl) => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
            }
            Op::Bin(Bin::Lshr) => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if lo + w + k <= f {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            if w <= 128 {
                return self.konst(x << lw | y, w);
            }
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nl.a, nl.b, w);
        }
        // extract high next to the low part itself
        if nh.op == Op::Extract && nh.a == l && false {
            unreachable!()
        }
        if nl.op == Op::Concat {
            // (h . (a . b)) with h,a mergeable
            let na = self.n(nl.a);
            if (nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.b == na.b + na.w as u32) || (self.as_const(h).is_some() && self.as_const(nl.a).is_some()) {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::Concat {
            let nb = self.n(nh.b);
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.b == nl.b + lw {
                let x = self.concat(nh.b, l);
                return self.concat(nh.a, x);
            }
        }
        if nh.op == Op::Zext {
            // zext(x) . l  -> zext(x . l)
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        self.intern(Node { op: Op::Concat, w: w as u16, a: h, b: l, c: 0 })
    }

    pub fn bin(&mut self, op: Bin, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(conc_bin(op, x, y, w), w);
        }
        // constants to the right on commutative ops
        let (a, b, ka, kb) = if ka.is_some() && matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor) { (b, a, kb, ka) } else { (a, b, ka, kb) };
        let all = mask128(u128::MAX, w);
        let na = self.n(a);
        match op {
            Bin::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if let Op::Bin(Bin::Add) = na.op {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(mask128(k.wrapping_add(k2), w), w);
                            return self.bin(Bin::Add, na.a, kk);
                        }
                    }
                    if let Op::Bin(Bin::Sub) = na.op {
                        if let Some(k2) = self.as_const(na.a) {
                            let kk = self.konst(mask128(k.wrapping_add(k2), w), w);
                            return self.bin(Bin::Sub, kk, na.b);
                        }
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // (x + k) + y -> (x + y) + k
                    if let Op::Bin(Bin::Add) = na.op {
                        if self.as_const(na.b).is_some() {
                            let s = self.bin(Bin::Add, na.a, b);
                            return self.bin(Bin::Add, s, na.b);
                        }
                    }
                    let nb = self.n(b);
                    if let Op::Bin(Bin::Add) = nb.op {
                        if self.as_const(nb.b).is_some() {
                            let s = self.bin(Bin::Add, a, nb.a);
                            return self.bin(Bin::Add, s, nb.b);
                        }
                    }
                    // (x - y) + y
                    if let Op::Bin(Bin::Sub) = na.op {
                        if na.b == b {
                            return na.a;
                        }
                    }
                    if let Op::Bin(Bin::Sub) = nb.op {
                        if nb.b == a {
                            return nb.a;
                        }
                    }
                    if a > b {
                        return self.intern(Node { op: Op::Bin(op), w: w as u16, a: b, b: a, c: 0 });
                    }
                }
            }
            Bin::Sub => {
                if let Some(k) = kb {
                    let kk = self.konst(mask128(k.wrapping_neg(), w), w);
                    return self.bin(Bin::Add, a, kk);
                }
                if a == b {
                    return self.konst(0, w);
                }
                let nb = self.n(b);
                if let Op::Bin(Bin::Add) = na.op {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(Bin::Sub, na.a, b);
                        return self.bin(Bin::Add, s, na.b);
                    }
                }
                if let Op::Bin(Bin::Add) = nb.op {
                    if let Some(k) = self.as_const(nb.b) {
                        let s = self.bin(Bin::Sub, a, nb.a);
                        let kk = self.konst(mask128(k.wrapping_neg(), w), w);
                        return self.bin(Bin::Add, s, kk);
                    }
                }
            }
            Bin::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, s);
                    }
                }
            }
            Bin::Udiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Bin::Lshr, a, s);
                    }
                }
            }
            Bin::Urem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Bin::And, a, s);
                    }
                    if w <= 64 && k > 0 {
                        let (l, h) = self.iv(a);
                        let k = k as u64;
                        if l / k == h / k {
                            let c = self.konst((l / k * k) as u128, w);
                            return self.bin(Bin::Sub, a, c);
                        }
                    }
                }
            }
            Bin::Sdiv | Bin::Srem => {
                if w <= 64 {
                    let s = 1u64 << (w - 1);
                    if self.iv(a).1 < s && self.iv(b).1 < s {
                        return self.bin(if op == Bin::Sdiv { Bin::Udiv } else { Bin::Urem }, a, b);
                    }
                }
            }
            Bin::Shl | Bin::Lshr | Bin::Ashr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        if op != Bin::Ashr {
                            return self.konst(0, w);
                        }
                    } else {
                        let k = k as u32;
                        if op == Bin::Lshr {
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        if op == Bin::Shl {
                            let x = self.extract(a, 0, w - k);
                            let z = self.konst(0, k);
                            return self.concat(x, z);
                        }
                        if op == Bin::Ashr {
                            let x = self.extract(a, k, w - k);
                            return self.sext(x, w);
                        }
                    }
                }
            }
            Bin::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == all {
                        return a;
                    }
                    if w <= 64 {
                        let hi = self.iv(a).1;
                        let m = if hi == 0 { 0 } else { u64::MAX >> hi.leading_zeros() };
                        if m & (k as u64) == m {
                            return a;
                        }
                        if m & (k as u64) == 0 {
                            return self.konst(0, w);
                        }
                    }
                    match na.op {
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.konst(k >> lw, w - lw);
                            let kl = self.konst(mask128(k, lw), lw);
                            let x = self.bin(op, na.a, kh);
                            let y = self.bin(op, na.b, kl);
                            return self.concat(x, y);
                        }
                        Op::Zext => {
                            let f = self.w(na.a);
                            let kl = self.konst(mask128(k, f), f);
                            let x = self.bin(op, na.a, kl);
                            return self.zext(x, w);
                        }
                        Op::Bin(Bin::And) => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.konst(k & k2, w);
                                return self.bin(op, na.a, kk);
                            }
                        }
                        Op::Ite if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() => {
                            let x = self.bin(op, na.b, b);
                            let y = self.bin(op, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                        _ => {}
                    }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() && w <= 128 {
                        let n = (k + 1).trailing_zeros();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    // mask of contiguous high bits 2^n..: concat(extract, 0)
                    let tz = k.trailing_zeros();
                    if tz > 0 && tz < w && (k >> tz) == mask128(u128::MAX, w - tz) {
                        let x = self.extract(a, tz, w - tz);
                        let z = self.konst(0, tz);
                        return self.concat(x, z);
                    }
                }
                if w == 1 {
                    if let Op::Bin(Bin::And) = na.op {
                        if na.a == b || na.b == b {
                            return a;
                        }
                    }
                    let (x, y) = (self.not(a), b);
                    if x == y {
                        return self.ff();
                    }
                }
            }
            Bin::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == all {
                        return b;
                    }
                    if let Op::Concat = na.op {
                        let lw = self.w(na.b);
                        let kh = self.konst(k >> lw, w - lw);
                        let kl = self.konst(mask128(k, lw), lw);
                        let x = self.bin(op, na.a, kh);
                        let y = self.bin(op, na.b, kl);
                        return self.concat(x, y);
                    }
                }
                if w == 1 {
                    let x = self.not(a);
                    if x == b {
                        return self.tt();
                    }
                }
                // disjoint bits: concat form
                if w > 1 {
                    if let Some(e) = self.or_disjoint(a, b, w) {
                        return e;
                    }
                }
            }
            Bin::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if let Op::Bin(Bin::Xor) = na.op {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(k ^ k2, w);
                            return self.bin(op, na.a, kk);
                        }
                    }
                }
            }
            _ => {}
        }
        let _ = ka;
        let (a, b) = if matches!(op, Bin::And | Bin::Or | Bin::Xor) && self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Bin(op), w: w as u16, a, b, c: 0 })
    }

    /// or(concat(x, 0_k), y) where y fits in k bits -> concat(x, extract y)
    fn or_disjoint(&mut self, a: Eid, b: Eid, w: u32) -> Option<Eid> {
        for (x, y) in [(a, b), (b, a)] {
            // low zeros of x
            let tz = self.low_zeros(x);
            if tz == 0 || tz >= w {
                continue;
            }
            let ny = self.n(y);
            let fits = match ny.op {
                Op::Zext => self.w(ny.a) <= tz,
                Op::Const | Op::ConstW => self.as_const(y).unwrap() >> tz == 0,
                _ => w <= 64 && self.iv(y).1 >> tz == 0,
            };
            if fits {
                let h = self.extract(x, tz, w - tz);
                let l = self.extract(y, 0, tz);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    fn low_zeros(&self, e: Eid) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::ConstW => {
                let k = self.as_const(e).unwrap();
                if k == 0 {
                    0
                } else {
                    k.trailing_zeros()
                }
            }
            Op::Concat => {
                if self.as_const(n.b) == Some(0) {
                    self.w(n.b)
                } else {
                    self.low_zeros(n.b).min(self.w(n.b))
                }
            }
            Op::Zext => self.low_zeros(n.a),
            _ => 0,
        }
    }

    /// sorted variable ids of e
    pub fn vars_of(&mut self, e: Eid) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let n = self.n(e);
        let kids: Vec<u32> = match n.op {
            Op::Const | Op::ConstW => vec![],
            Op::Var => {
                let r = Rc::new(vec![n.a]);
                self.varsets.insert(e, r.clone());
                return r;
            }
            Op::Ite => vec![n.a, n.b, n.c],
            Op::Zext | Op::Sext | Op::Extract => vec![n.a],
            _ => vec![n.a, n.b],
        };
        let mut v: Vec<u32> = vec![];
        let mut single: Option<Rc<Vec<u32>>> = None;
        let nk = kids.len();
        for k in kids {
            let s = self.vars_of(k);
            if nk == 1 {
                single = Some(s);
                break;
            }
            v.extend(s.iter());
        }
        let r = match single {
            Some(s) => s,
            None => {
                v.sort();
                v.dedup();
                Rc::new(v)
            }
        };
        self.varsets.insert(e, r.clone());
        r
    }

    /// evaluate under a model (var id -> value; missing = lo)
    pub fn eval(&self, e: Eid, m: &dyn Fn(u32) -> u64, memo: &mut HashMap<Eid, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const | Op::ConstW => return self.as_const(e).unwrap(),
            Op::Var => return m(n.a) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, m, memo) == 1 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            Op::Zext => self.eval(n.a, m, memo),
            Op::Sext => mask128(sx(self.eval(n.a, m, memo), self.w(n.a)) as u128, w),
            Op::Extract => mask128(self.eval(n.a, m, memo) >> n.b, w),
            Op::Concat => self.eval(n.a, m, memo) << self.w(n.b) | self.eval(n.b, m, memo),
            Op::Cmp(p) => conc_cmp(p, self.eval(n.a, m, memo), self.eval(n.b, m, memo), self.w(n.a)) as u128,
            Op::Bin(b) => conc_bin(b, self.eval(n.a, m, memo), self.eval(n.b, m, memo), w),
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: Eid, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const | Op::ConstW => format!("{:#x}", self.as_const(e).unwrap()),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::Zext => format!("(zext{} {})", n.w, self.show(n.a, d - 1)),
            Op::Sext => format!("(sext{} {})", n.w, self.show(n.a, d - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Concat => format!("({} . {})", self.show(n.a, d - 1), self.show(n.b, d - 1)),
            Op::Cmp(p) => format!("({:?} {} {})", p, self.show(n.a, d - 1), self.show(n.b, d - 1)),
            Op::Bin(b) => format!("({:?} {} {})", b, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
