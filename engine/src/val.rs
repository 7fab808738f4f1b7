use crate::expr::{self, Eid};
use crate::ir::{mask128, mask64};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(Eid),
    W(Rc<u128>),
    Agg(Rc<Vec<Val>>),
}

impl Val {
    pub fn wide(x: u128) -> Val {
        Val::W(Rc::new(x))
    }
    pub fn from128(x: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I(x as u64)
        } else {
            Val::wide(x)
        }
    }
    /// expression of width w
    pub fn ex(&self, w: u32) -> Eid {
        match self {
            Val::I(x) => expr::cx().konst(mask64(*x, w) as u128, w),
            Val::W(x) => expr::cx().konst(mask128(**x, w), w),
            Val::E(e) => *e,
            Val::Agg(_) => panic!("agg as expr"),
        }
    }
    pub fn of(e: Eid) -> Val {
        let c = expr::cx();
        match c.as_const(e) {
            Some(v) => Val::from128(v, c.w(e)),
            None => Val::E(e),
        }
    }
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    pub fn is_sym(&self) -> bool {
        matches!(self, Val::E(_))
    }
}
