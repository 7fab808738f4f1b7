use crate::expr::{cx, Eid};
use crate::ir::mask128;
use crate::val::Val;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Sym = BTreeMap<u32, (Eid, u8)>;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Sym>>,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None }
    }
    pub fn len(&self) -> u64 {
        self.data.len() as u64
    }
    #[inline]
    fn has_sym(&self, off: u32, n: u32) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s.range(off..off + n).next().is_some(),
        }
    }
    pub fn byte(&self, off: u32) -> Val {
        if let Some(s) = &self.sym {
            if let Some((e, k)) = s.get(&off) {
                return Val::of(cx().extract(*e, *k as u32 * 8, 8));
            }
        }
        Val::I(self.data[off as usize] as u64)
    }
    /// little-endian read of n<=16 bytes
    #[inline]
    pub fn read(&self, off: u32, n: u32, w: u32) -> Val {
        if self.sym.is_none() || !self.has_sym(off, n) {
            let o = off as usize;
            let d = &self.data;
            return match n {
                1 => Val::I(if w < 8 { d[o] as u64 & ((1 << w) - 1) } else { d[o] as u64 }),
                2 => Val::I(u16::from_le_bytes([d[o], d[o + 1]]) as u64),
                4 if w == 32 => Val::I(u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64),
                8 if w == 64 => Val::I(u64::from_le_bytes(d[o..o + 8].try_into().unwrap())),
                _ => {
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&d[o..o + n as usize]);
                    Val::from128(mask128(u128::from_le_bytes(b), w), w)
                }
            };
        }
        let s = self.sym.as_ref().unwrap();
        // whole expression fast path
        if let Some((e, 0)) = s.get(&off) {
            let c = cx();
            if c.w(*e) == n * 8 && (1..n).all(|k| s.get(&(off + k)) == Some(&(*e, k as u8))) {
                return Val::of(if w < n * 8 { c.extract(*e, 0, w) } else { *e });
            }
        }
        let c = cx();
        let mut acc: Option<Eid> = None;
        let mut k = 0;
        while k < n {
            // group
            let (e, len) = match s.get(&(off + k)) {
                Some((e, b)) => {
                    let mut l = 1;
                    while k + l < n && s.get(&(off + k + l)) == Some(&(*e, b + l as u8)) {
                        l += 1;
                    }
                    (c.extract(*e, *b as u32 * 8, l * 8), l)
                }
                None => {
                    let mut l = 1;
                    while k + l < n && !s.contains_key(&(off + k + l)) {
                        l += 1;
                    }
                    let mut b = [0u8; 16];
                    let o = (off + k) as usize;
                    b[..l as usize].copy_from_slice(&self.data[o..o + l as usize]);
                    (c.konst(u128::from_le_bytes(b), l * 8), l)
                }
            };
            acc = Some(match acc {
                None => e,
                Some(a) => c.concat(e, a),
            });
            k += len;
        }
        let e = acc.unwrap();
        Val::of(if w < n * 8 { c.extract(e, 0, w) } else { e })
    }
    #[inline]
    pub fn clear_sym(&mut self, off: u32, n: u32) {
        if let Some(s) = &mut self.sym {
            let ks: Vec<u32> = s.range(off..off + n).map(|x| *x.0).collect();
            for k in ks {
                s.remove(&k);
            }
            if s.is_empty() {
                self.sym = None;
            }
        }
    }
    #[inline]
    pub fn write(&mut self, off: u32, n: u32, w: u32, v: &Val) {
        match v {
            Val::I(x) => {
                self.clear_sym(off, n);
                let o = off as usize;
                match n {
                    8 => self.data[o..o + 8].copy_from_slice(&x.to_le_bytes()),
                    4 => self.data[o..o + 4].copy_from_slice(&(*x as u32).to_le_bytes()),
                    1 => self.data[o] = *x as u8,
                    _ => {
                        for k in 0..n as usize {
                            self.data[o + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                        }
                    }
                }
            }
            Val::W(x) => {
                self.clear_sym(off, n);
                let o = off as usize;
                for k in 0..n as usize {
                    self.data[o + k] = (**x >> (8 * k)) as u8;
                }
            }
            Val::E(e) => {
                let c = cx();
                let e = if w < n * 8 { c.zext(*e, n * 8) } else { *e };
                for k in 0..n {
                    self.set_sym_byte(off + k, e, k as u8);
                }
            }
            Val::Agg(_) => panic!("agg write"),
        }
    }
    pub fn set_sym_byte(&mut self, off: u32, e: Eid, k: u8) {
        let c = cx();
        let b = c.extract(e, k as u32 * 8, 8);
        if let Some(v) = c.as_const(b) {
            if let Some(s) = &mut self.sym {
                s.remove(&off);
            }
            self.data[off as usize] = v as u8;
        } else {
            self.sym.get_or_insert_with(Default::default).insert(off, (e, k));
            self.data[off as usize] = 0;
        }
    }
    pub fn set_byte(&mut self, off: u32, v: &Val) {
        self.write(off, 1, 8, v)
    }
    pub fn copy_from(&mut self, d: u32, src: &Obj, s: u32, n: u32) {
        self.data[d as usize..(d + n) as usize].copy_from_slice(&src.data[s as usize..(s + n) as usize]);
        if self.sym.is_some() {
            self.clear_sym(d, n);
        }
        if let Some(ss) = &src.sym {
            let it: Vec<(u32, (Eid, u8))> = ss.range(s..s + n).map(|(a, b)| (*a, *b)).collect();
            if !it.is_empty() {
                let m = self.sym.get_or_insert_with(Default::default);
                for (a, b) in it {
                    m.insert(a - s + d, b);
                }
            }
        }
    }
    pub fn slice(&self, off: u32, n: u32) -> Obj {
        let mut o = Obj::new(n as usize);
        o.copy_from(0, self, off, n);
        o
    }
    pub fn resize(&mut self, n: usize) {
        let old = self.data.len();
        if n < old {
            self.clear_sym(n as u32, (old - n) as u32);
        }
        self.data.resize(n, 0);
    }
    pub fn is_conc(&self) -> bool {
        self.sym.is_none()
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone, Default)]
pub struct Table {
    ch: Vec<Option<Rc<Chunk>>>,
}
impl Table {
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.ch.get(i / CH)?.as_ref()?[i % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.ch.get_mut(i / CH)?.as_mut()?;
        let c = Rc::make_mut(c);
        Some(Rc::make_mut(c[i % CH].as_mut()?))
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        let k = i / CH;
        if k >= self.ch.len() {
            self.ch.resize(k + 1, None);
        }
        let slot = &mut self.ch[k];
        if slot.is_none() {
            if o.is_none() {
                return;
            }
            *slot = Some(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(slot.as_mut().unwrap())[i % CH] = o;
    }
}
