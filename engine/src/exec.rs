use crate::env::{self, Env};
use crate::expr::{conc_bin, conc_cmp, cx, Eid, Op};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::Val;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum Stop {
    Fork(Eid, Rc<Model>),
    /// unsupported / budget / solver unknown: path is inconclusive
    Bad(String),
    Infeasible,
    Panic(String),
    Exit(i64),
    Crash,
    Done,
}
pub type R<T> = Result<T, Stop>;
pub fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}

#[derive(Clone)]
pub struct Barrier {
    pub ret: u64,
    pub nfds: usize,
    pub globals: Vec<(usize, Rc<Obj>)>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: u32,
    pub normal: Option<&'static Edge>,
    pub barrier: Option<Rc<Barrier>>,
}
/// Instructions after which a run counts as one that does not end (a usual
/// one takes 1 to 10 million).
const CALL_LIMIT: u64 = 60_000_000;

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub smem: Vec<Rc<Obj>>,
    pub stack_bytes: u64,
    pub objs: Table, // globals
    pub heap: Table,
    pub free: Vec<u32>,
    pub next: u32,
    pub pc: Rc<Vec<Eid>>,
    pub known: Rc<HashMap<Eid, bool>>,
    pub model: Rc<Model>,
    pub env: Env,
    pub steps: u64,
    /// value of `steps` when the process under test was started
    pub call_start: u64,
    pub forks: u32,
    pub names: Rc<HashMap<String, u32>>,
    pub inputs: Rc<Vec<(String, Eid)>>,
    pub covers: Rc<Vec<String>>,
    pub last_panic: Rc<String>,
}

pub type Bi = fn(&mut Exec, &mut State, &[Val]) -> R<Val>;

pub struct Violation {
    pub id: String,
    pub inputs: Vec<(String, u64)>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub bad: u64,
    pub bad_msgs: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    /// states left open because enough violations were found
    pub stopped: u64,
    pub assert_ids: BTreeMap<String, u64>,
}

pub struct Exec {
    pub m: &'static Module,
    pub ext: Vec<Option<Bi>>,
    pub over: Vec<Option<Bi>>,
    pub gl: Vec<Rc<Obj>>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    pub max_viol: usize,
    pub nviol: usize,
    pub step_limit: u64,
    pub deadline: std::time::Instant,
    pub slow: f64,
    pub fix: HashMap<String, (u64, u64)>,
    pub trace: bool,
    pub fmt_hook: Option<u32>,
    pub concrete: Option<HashMap<String, u64>>,
    pub samples: Vec<String>,
    pub viol_ids: HashMap<String, u32>,
    /// gives open work away to a new process if there is room for one
    pub split: Option<fn(&mut Exec) -> bool>,
    pub profile: bool,
    pub fork_prof: HashMap<String, u64>,
    pub step_prof: HashMap<String, u64>,
}

impl State {
    #[inline]
    pub fn depth(&self) -> usize {
        self.frames.len()
    }
    pub fn op(&self, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => self.cur.regs[*r as usize].clone(),
            Opnd::C(c) => Val::I(*c),
            Opnd::X(v) => v.clone(),
        }
    }
    #[inline]
    pub fn set(&mut self, d: u32, v: Val) {
        if d != NODST {
            self.cur.regs[d as usize] = v;
        }
    }
    pub fn alloc(&mut self, n: u64) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                i
            }
        };
        self.heap.set(id as usize, Some(Rc::new(Obj::new(n as usize))));
        (HEAP_BASE + id as u64) << 32
    }
    pub fn free(&mut self, p: u64) {
        if p == 0 {
            return;
        }
        let id = (p >> 32) - HEAP_BASE;
        self.heap.set(id as usize, None);
        self.free.push(id as u32);
    }
    pub fn add_pc(&mut self, e: Eid) {
        if cx().as_const(e).is_some() {
            return;
        }
        let n = cx().n(e);
        if n.op == Op::Bin(Bin::And) {
            self.add_pc(n.a);
            self.add_pc(n.b);
            Rc::make_mut(&mut self.known).insert(e, true);
            return;
        }
        Rc::make_mut(&mut self.pc).push(e);
        let ne = cx().not(e);
        let k = Rc::make_mut(&mut self.known);
        k.insert(e, true);
        k.insert(ne, false);
    }
    pub fn eval(&self, e: Eid) -> u128 {
        let m = &self.model;
        let f = |v: u32| m.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
        cx().eval(e, &f, &mut HashMap::new())
    }
}

impl Exec {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Exec {
        let gl = (0..m.globs.len()).map(|i| Rc::new(Obj { data: if m.globs[i].weak { vec![0; 8] } else { m.glob_init(i as u32) }, sym: None })).collect();
        let ext = m.exts.iter().map(|n| env::builtin(n)).collect();
        let over = m.fns.iter().map(|f| env::override_fn(f)).collect();
        Exec {
            m,
            ext,
            over,
            gl,
            solver: Solver::new(timeout_ms),
            work: vec![],
            stats: Stats::default(),
            viol: vec![],
            max_viol: 1,
            nviol: 0,
            step_limit: 200_000_000,
            slow: std::env::var("VP_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(0.0),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(36000),
            fix: HashMap::new(),
            trace: false,
            fmt_hook: m.fn_ix.get("vp_fmt_u64").copied(),
            concrete: None,
            samples: vec![],
            viol_ids: HashMap::new(),
            split: None,
            profile: false,
            fork_prof: HashMap::new(),
            step_prof: HashMap::new(),
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let fi = *self.m.fn_ix.get(entry).unwrap_or_else(|| {
            eprintln!("ENGINE-ERROR no harness {entry}");
            std::process::exit(2)
        });
        let f: &'static Func = self.m.func(fi);
        let mut objs = Table::default();
        for (i, g) in self.m.globs.iter().enumerate() {
            if !g.is_const {
                objs.set(i, Some(self.gl[i].clone()));
            }
        }
        let mut st = State {
            cur: Frame { f, blk: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], dst: NODST, normal: None, barrier: None },
            frames: vec![],
            smem: vec![Rc::new(Obj::new(f.frame as usize))],
            stack_bytes: 0,
            objs,
            heap: Table::default(),
            free: vec![],
            next: 0,
            pc: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            model: Rc::new(Model::new()),
            env: Env::new(),
            steps: 0,
            call_start: u64::MAX,
            forks: 0,
            names: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            covers: Rc::new(vec![]),
            last_panic: Rc::new(String::new()),
        };
        st.env.errno = st.alloc(4);
        st
    }

    // ---------------------------------------------------------------- memory
    #[inline]
    pub fn obj<'a>(&'a self, st: &'a State, p: u64) -> Option<&'a Obj> {
        let id = p >> 32;
        if id >= HEAP_BASE {
            if id >= FN_BASE {
                return None;
            }
            return st.heap.get((id - HEAP_BASE) as usize).map(|x| &**x);
        }
        if id >= STACK_BASE {
            return st.smem.get((id - STACK_BASE) as usize).map(|x| &**x);
        }
        if id >= GLOB_BASE {
            let i = (id - GLOB_BASE) as usize;
            return match st.objs.get(i) {
                Some(o) => Some(o),
                None => self.gl.get(i).map(|x| &**x),
            };
        }
        None
    }
    #[inline]
    pub fn obj_mut<'a>(&self, st: &'a mut State, p: u64) -> Option<&'a mut Obj> {
        let id = p >> 32;
        if id >= HEAP_BASE {
            if id >= FN_BASE {
                return None;
            }
            return st.heap.get_mut((id - HEAP_BASE) as usize);
        }
        if id >= STACK_BASE {
            return st.smem.get_mut((id - STACK_BASE) as usize).map(Rc::make_mut);
        }
        if id >= GLOB_BASE {
            return st.objs.get_mut((id - GLOB_BASE) as usize);
        }
        None
    }
    #[inline]
    pub fn read(&self, st: &State, p: u64, w: u32) -> R<Val> {
        let n = (w + 7) / 8;
        match self.obj(st, p) {
            Some(o) if (p as u32 as u64) + n as u64 <= o.len() => Ok(o.read(p as u32, n, w)),
            Some(o) => bad(format!("oob read {:#x}+{} of object len {}", p, n, o.len())),
            None => bad(format!("bad read ptr {:#x}", p)),
        }
    }
    #[inline]
    pub fn write(&self, st: &mut State, p: u64, w: u32, v: &Val) -> R<()> {
        let n = (w + 7) / 8;
        match self.obj_mut(st, p) {
            Some(o) if (p as u32 as u64) + n as u64 <= o.len() => {
                o.write(p as u32, n, w, v);
                Ok(())
            }
            _ => bad(format!("bad write ptr {:#x}+{}", p, n)),
        }
    }
    pub fn readn(&self, st: &State, p: u64, n: u64) -> R<Obj> {
        if n == 0 {
            return Ok(Obj::default());
        }
        match self.obj(st, p) {
            Some(o) if (p as u32 as u64) + n <= o.len() => Ok(o.slice(p as u32, n as u32)),
            _ => bad(format!("bad readn ptr {:#x}+{}", p, n)),
        }
    }
    pub fn writen(&self, st: &mut State, p: u64, src: &Obj) -> R<()> {
        let n = src.len();
        if n == 0 {
            return Ok(());
        }
        match self.obj_mut(st, p) {
            Some(o) if (p as u32 as u64) + n <= o.len() => {
                o.copy_from(p as u32, src, 0, n as u32);
                Ok(())
            }
            _ => bad(format!("bad writen ptr {:#x}+{}", p, n)),
        }
    }
    pub fn cstr(&mut self, st: &State, p: u64) -> R<Obj> {
        let off = p as u32;
        let o = match self.obj(st, p) {
            Some(o) => o,
            None => return bad("cstr ptr"),
        };
        let mut n = 0u32;
        let mut conds = vec![];
        loop {
            if (off + n) as u64 >= o.len() {
                return bad("unterminated cstr");
            }
            match o.byte(off + n) {
                Val::I(0) => break,
                Val::I(_) => {}
                Val::E(e) => conds.push(e),
                _ => unreachable!(),
            }
            n += 1;
        }
        let r = o.slice(off, n);
        for e in conds {
            let z = cx().konst(0, 8);
            let c = cx().eq(e, z);
            if self.decide(st, c)? {
                return bad("symbolic NUL in path");
            }
        }
        Ok(r)
    }

    // ---------------------------------------------------------------- decisions
    fn slice_pc(&self, st: &State, e: Eid) -> Vec<Eid> {
        let mut vs: Vec<u32> = cx().vars_of(e).to_vec();
        let mut out = vec![];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut changed = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = cx().vars_of(*c);
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in cv.iter() {
                        if !vs.contains(v) {
                            vs.push(*v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }
    /// is pc && e satisfiable
    pub fn sat(&mut self, st: &State, e: Eid) -> R<Option<Rc<Model>>> {
        if let Some(k) = cx().as_const(e) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if st.eval(e) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if std::time::Instant::now() > self.deadline {
            return bad("time limit");
        }
        let mut cs = self.slice_pc(st, e);
        if !cs.is_empty() {
            // impossible whatever the path is?
            if let Res::Unsat = self.solver.check(&[e]) {
                return Ok(None);
            }
        }
        cs.push(e);
        let t0 = std::time::Instant::now();
        let q0 = self.solver.queries;
        let res = self.solver.check(&cs);
        if self.profile && self.solver.queries > q0 {
            let s = format!("Q {} :: {}", self.where_(st), cx().show(e, 3));
            *self.step_prof.entry(s).or_default() += 1;
        }
        if self.slow > 0.0 && t0.elapsed().as_secs_f64() > self.slow {
            eprintln!("SLOW {:.2}s {} conj @ {}\n   {}", t0.elapsed().as_secs_f64(), cs.len(), self.where_(st), cx().show(e, 14));
            for c in cs.iter().take(12) {
                eprintln!("      {}", cx().show(*c, 6));
            }
        }
        match res {
            Res::Sat(m) => {
                let mut mm = (*st.model).clone();
                for (k, v) in m.iter() {
                    mm.insert(*k, *v);
                }
                Ok(Some(Rc::new(mm)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => bad("solver returned unknown"),
        }
    }
    pub fn decide(&mut self, st: &State, e: Eid) -> R<bool> {
        if let Some(k) = cx().as_const(e) {
            return Ok(k == 1);
        }
        if let Some(b) = st.known.get(&e) {
            return Ok(*b);
        }
        let v = st.eval(e) == 1;
        let other = if v { cx().not(e) } else { e };
        match self.sat(st, other)? {
            None => Ok(v),
            Some(m) => Err(Stop::Fork(e, m)),
        }
    }
    pub fn decide_v(&mut self, st: &State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::E(e) => self.decide(st, *e),
            _ => bad("decide_v"),
        }
    }
    /// concrete value; forks over all feasible values
    pub fn conc(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::E(e) => {
                let k = st.eval(*e);
                let w = cx().w(*e);
                let kk = cx().konst(k, w);
                let c = cx().eq(*e, kk);
                if self.decide(st, c)? {
                    return Ok(k as u64);
                }
                // model was of the other side; retry with a model satisfying "not equal"
                bad("concretize: model mismatch")
            }
            _ => bad("conc agg"),
        }
    }

    // ---------------------------------------------------------------- main loop
    pub fn run_path(&mut self, mut st: State) {
        loop {
            let r = self.steps(&mut st);
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Fork(e, m)) => {
                    self.stats.forks += 1;
                    st.forks += 1;
                    if self.profile {
                        let mut s = self.pretty(st.cur.f.idx);
                        for i in (0..st.frames.len()).rev().take(4) {
                            s.push_str(" < ");
                            s.push_str(&self.pretty(st.frames[i].f.idx));
                        }
                        s.push_str(" :: ");
                        s.push_str(&cx().show(e, 3));
                        *self.fork_prof.entry(s).or_default() += 1;
                    }
                    let v = st.eval(e) == 1;
                    let mut o = st.clone();
                    let ne = cx().not(e);
                    let (a, b) = if v { (e, ne) } else { (ne, e) };
                    st.add_pc(a);
                    o.add_pc(b);
                    o.model = m;
                    self.work.push(o);
                    if let Some(split) = self.split {
                        if split(self) {
                            return; // this is a new process, with work of its own
                        }
                    }
                }
                Err(Stop::Bad(s)) => {
                    self.stats.bad += 1;
                    self.stats.steps += st.steps;
                    let loc = self.where_(&st);
                    let msg = format!("{s} @ {loc}");
                    if self.trace || self.stats.bad_msgs.len() < 5 {
                        eprintln!("BAD: {msg}");
                    }
                    *self.stats.bad_msgs.entry(msg).or_default() += 1;
                    return;
                }
                Err(Stop::Infeasible) => {
                    self.stats.infeasible += 1;
                    self.stats.steps += st.steps;
                    return;
                }
                Err(Stop::Done) => {
                    self.stats.paths += 1;
                    self.stats.steps += st.steps;
                    for c in st.covers.iter() {
                        *self.stats.covers.entry(c.clone()).or_default() += 1;
                    }
                    if self.samples.len() < 4 || (self.samples.len() < 12 && self.stats.paths % 37 == 0) {
                        let ins = self.model_inputs(&st, &st.model);
                        let mut t: Vec<String> = ins.iter().map(|(n, v)| format!("{n}={v}")).collect();
                        t.extend(st.covers.iter().map(|c| format!("#{c}")));
                        self.samples.push(t.join("\n"));
                    }
                    return;
                }
                Err(Stop::Crash) => {
                    if self.trace {
                        eprintln!("CRASH @ {}", self.where_(&st));
                    }
                    if !self.unwind_to_barrier(&mut st, 1, 0) {
                        self.uncaught(&st, "crash outside vp_call");
                        return;
                    }
                }
                Err(Stop::Panic(s)) => {
                    if self.trace {
                        eprintln!("PANIC: {s} @ {}", self.where_(&st));
                    }
                    st.last_panic = Rc::new(format!("{s} @ {}", self.where_(&st)));
                    if !self.unwind_to_barrier(&mut st, 2, 0) {
                        let l = st.last_panic.clone();
                        self.uncaught(&st, &format!("panic in harness: {l}"));
                        return;
                    }
                }
                Err(Stop::Exit(c)) => {
                    if !self.unwind_to_barrier(&mut st, 3, c) {
                        self.uncaught(&st, "exit outside vp_call");
                        return;
                    }
                }
            }
        }
    }
    fn uncaught(&mut self, st: &State, s: &str) {
        self.stats.bad += 1;
        self.stats.steps += st.steps;
        eprintln!("BAD: {s}; inputs {:?}", self.model_inputs(st, &st.model));
        *self.stats.bad_msgs.entry(s.to_string()).or_default() += 1;
    }

    fn unwind_to_barrier(&mut self, st: &mut State, kind: u64, ret: i64) -> bool {
        let mut fr = st.cur.clone();
        loop {
            st.smem.pop();
            st.stack_bytes -= fr.f.frame as u64;
            if let Some(b) = fr.barrier.clone() {
                st.call_start = u64::MAX;
                let caller = match st.frames.pop() {
                    Some(c) => (*c).clone(),
                    None => return false,
                };
                st.cur = caller;
                let dst = fr.dst;
                env::process_end(st, b.nfds);
                // a new process starts with fresh statics
                for (i, o) in &b.globals {
                    st.objs.set(*i, Some(o.clone()));
                }
                if self.write(st, b.ret, 64, &Val::I(ret as u64)).is_err() {
                    return false;
                }
                st.set(dst, Val::I(kind));
                self.resume_caller(st, fr.normal);
                return true;
            }
            match st.frames.pop() {
                Some(c) => fr = (*c).clone(),
                None => {
                    return false;
                }
            }
        }
    }

    fn resume_caller(&self, st: &mut State, normal: Option<&'static Edge>) {
        match normal {
            Some(e) => self.goto(st, e),
            None => st.cur.ip += 1,
        }
    }

    pub fn pretty(&self, fi: u32) -> String {
        let d = &self.m.fns[fi as usize];
        if d.pretty.is_empty() {
            d.name.to_string()
        } else {
            d.pretty.to_string()
        }
    }
    pub fn where_(&self, st: &State) -> String {
        let mut s = self.pretty(st.cur.f.idx);
        for f in st.frames.iter().rev().take(7) {
            s.push_str(" < ");
            s.push_str(&self.pretty(f.f.idx));
        }
        s
    }

    pub fn model_inputs(&self, st: &State, m: &Model) -> Vec<(String, u64)> {
        st.inputs
            .iter()
            .map(|(n, e)| {
                let f = |v: u32| m.get(&v).copied().unwrap_or(cx().vars[v as usize].lo);
                (n.clone(), cx().eval(*e, &f, &mut HashMap::new()) as u64)
            })
            .collect()
    }

    pub fn violation(&mut self, st: &State, m: &Model, id: &str) {
        let n = self.viol_ids.entry(id.to_string()).or_default();
        *n += 1;
        self.nviol += 1;
        if *n as usize > self.max_viol {
            return;
        }
        let trace = env::trace_lines(st, m);
        self.viol.push(Violation { id: id.to_string(), inputs: self.model_inputs(st, m), trace });
    }

    #[inline]
    fn goto(&self, st: &mut State, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = st.op(&e.copies[0].1);
                st.cur.regs[e.copies[0].0 as usize] = v;
            }
            _ => {
                let vs: smallv::SV = e.copies.iter().map(|c| st.op(&c.1)).collect();
                for (c, v) in e.copies.iter().zip(vs) {
                    st.cur.regs[c.0 as usize] = v;
                }
            }
        }
        st.cur.blk = e.target;
        st.cur.ip = 0;
    }

    pub fn push_call(&mut self, st: &mut State, fi: u32, args: Vec<Val>, dst: u32, normal: Option<&'static Edge>, barrier: Option<Rc<Barrier>>) -> R<()> {
        let f: &'static Func = self.m.func(fi);
        if args.len() != f.nargs as usize {
            return bad(format!("arg count {} vs {} calling {}", args.len(), f.nargs, self.pretty(fi)));
        }
        if st.frames.len() > 12000 || st.stack_bytes > 7 << 20 {
            return Err(Stop::Panic("stack overflow".into()));
        }
        f.icount.set(f.icount.get() + 1);
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::I(0));
        st.stack_bytes += f.frame as u64;
        st.smem.push(Rc::new(Obj::new(f.frame as usize)));
        let fr = Frame { f, blk: 0, ip: 0, regs, dst, normal, barrier };
        let old = std::mem::replace(&mut st.cur, fr);
        st.frames.push(Rc::new(old));
        Ok(())
    }

    fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let Some(caller) = st.frames.pop() else {
            return Err(Stop::Done);
        };
        st.smem.pop();
        let caller = Rc::try_unwrap(caller).unwrap_or_else(|r| (*r).clone());
        let fr = std::mem::replace(&mut st.cur, caller);
        st.stack_bytes -= fr.f.frame as u64;
        if let Some(b) = fr.barrier {
            st.call_start = u64::MAX;
            env::process_end(st, b.nfds);
            for (i, o) in &b.globals {
                st.objs.set(*i, Some(o.clone()));
            }
            let v = v.unwrap_or(Val::I(0));
            self.write(st, b.ret, 64, &v)?;
            st.set(fr.dst, Val::I(0));
        } else if let Some(v) = v {
            st.set(fr.dst, v);
        }
        self.resume_caller(st, fr.normal);
        Ok(())
    }

    fn steps(&mut self, st: &mut State) -> R<()> {
        let mut budget = 0u32;
        loop {
            budget += 1;
            if budget & 0xffff == 0 {
                if st.steps > self.step_limit {
                    return bad("step budget exceeded");
                }
                if st.steps.saturating_sub(st.call_start) > CALL_LIMIT {
                    return Err(Stop::Panic("the run does not end".into()));
                }
                if std::time::Instant::now() > self.deadline {
                    return bad("time limit");
                }
            }
            let f: &'static Func = st.cur.f;
            let ins: &'static I = &f.blocks[st.cur.blk as usize][st.cur.ip as usize];
            st.steps += 1;
            if self.profile && st.steps % 997 == 0 {
                let mut seen: Vec<u32> = vec![];
                let mut add = |i: u32| {
                    if !seen.contains(&i) {
                        seen.push(i);
                    }
                };
                for f in st.frames.iter() {
                    add(f.f.idx as u32);
                }
                let top = st.cur.f.idx;
                add(top as u32);
                for i in seen {
                    let n = self.pretty(i as _);
                    *self.step_prof.entry(format!("incl {n}")).or_default() += 1;
                }
                let n = self.pretty(top);
                *self.step_prof.entry(format!("self {n}")).or_default() += 1;
            }
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let x = st.op(a);
                    let y = st.op(b);
                    let v = self.bin(st, *op, *w, &x, &y)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Icmp(p, w, d, a, b) => {
                    let x = st.op(a);
                    let y = st.op(b);
                    let v = icmp(*p, *w, &x, &y);
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Load(d, w, p) => {
                    let q = st.op(p);
                    let v = match q {
                        Val::I(a) => self.read(st, a, *w)?,
                        _ => self.sym_load(st, &q, *w)?,
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Store(w, v, p) => {
                    let q = st.op(p);
                    let a = match q {
                        Val::I(a) => a,
                        _ => self.conc(st, &q)?,
                    };
                    let x = st.op(v);
                    self.write(st, a, *w, &x)?;
                    st.cur.ip += 1;
                }
                I::Gep(g) => {
                    let base = st.op(&g.base);
                    let v = if g.idx.is_empty() {
                        match base {
                            Val::I(x) => Val::I(x.wrapping_add(g.off as u64)),
                            Val::E(e) => {
                                let k = cx().konst(g.off as u64 as u128, 64);
                                Val::of(cx().bin(Bin::Add, e, k))
                            }
                            _ => return bad("gep base"),
                        }
                    } else {
                        let mut acc = bin2(Bin::Add, 64, &base, &Val::I(g.off as u64));
                        for (o, s, iw) in &g.idx {
                            let x = st.op(o);
                            let t = match x {
                                Val::I(x) => Val::I((sext(x, *iw)).wrapping_mul(*s as i64) as u64),
                                Val::E(e) => {
                                    let e = cx().sext(e, 64);
                                    let k = cx().konst(*s as u128, 64);
                                    Val::of(cx().bin(Bin::Mul, e, k))
                                }
                                _ => return bad("gep idx"),
                            };
                            acc = bin2(Bin::Add, 64, &acc, &t);
                        }
                        acc
                    };
                    st.cur.regs[g.dst as usize] = v;
                    st.cur.ip += 1;
                }
                I::Br(e) => self.goto(st, e),
                I::CondBr(c, t, e) => {
                    let v = st.op(c);
                    let b = match v {
                        Val::I(x) => x & 1 == 1,
                        Val::E(x) => self.decide(st, x)?,
                        _ => return bad("condbr"),
                    };
                    self.goto(st, if b { t } else { e });
                }
                I::Cast(k, f, t, d, a) => {
                    let x = st.op(a);
                    let v = cast(*k, *f, *t, &x)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Copy(d, a) => {
                    let x = st.op(a);
                    st.cur.regs[*d as usize] = x;
                    st.cur.ip += 1;
                }
                I::Alloca(d, off) => {
                    let id = STACK_BASE + st.frames.len() as u64;
                    st.cur.regs[*d as usize] = Val::I(id << 32 | off);
                    st.cur.ip += 1;
                }
                I::Select(d, w, c, a, b) => {
                    let cv = st.op(c);
                    let v = match cv {
                        Val::I(x) => {
                            if x & 1 == 1 {
                                st.op(a)
                            } else {
                                st.op(b)
                            }
                        }
                        Val::E(ce) => {
                            let (x, y) = (st.op(a), st.op(b));
                            if *w == 0 {
                                if self.decide(st, ce)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                // pointers to different objects: fork instead of building an ite
                                if let (Val::I(p), Val::I(q)) = (&x, &y) {
                                    if *w == 64 && p >> 32 != q >> 32 && (p >> 32 >= GLOB_BASE && q >> 32 >= GLOB_BASE) {
                                        let v = if self.decide(st, ce)? { x } else { y };
                                        st.cur.regs[*d as usize] = v;
                                        st.cur.ip += 1;
                                        continue;
                                    }
                                }
                                let (xe, ye) = (x.ex(*w), y.ex(*w));
                                Val::of(cx().ite(ce, xe, ye))
                            }
                        }
                        _ => return bad("select"),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Call(c) => self.call(st, c)?,
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| st.op(o));
                    self.do_ret(st, v)?;
                }
                I::Switch(w, c, dflt, cases) => {
                    let v = st.op(c);
                    match v {
                        Val::I(x) => {
                            let e = cases.iter().find(|k| k.0 == x as u128).map(|k| &k.1).unwrap_or(dflt);
                            self.goto(st, e);
                        }
                        Val::W(x) => {
                            let e = cases.iter().find(|k| k.0 == *x).map(|k| &k.1).unwrap_or(dflt);
                            self.goto(st, e);
                        }
                        Val::E(e) => {
                            let mut tgt = None;
                            for (k, ed) in cases.iter() {
                                let kk = cx().konst(*k, *w);
                                let q = cx().eq(e, kk);
                                if self.decide(st, q)? {
                                    tgt = Some(ed);
                                    break;
                                }
                            }
                            self.goto(st, tgt.unwrap_or(dflt));
                        }
                        _ => return bad("switch"),
                    }
                }
                I::Extract(d, a, ix) => {
                    let mut v = st.op(a);
                    for i in ix {
                        v = match &v {
                            Val::Agg(x) => x[*i as usize].clone(),
                            _ => return bad("extractvalue"),
                        };
                    }
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Insert(d, t, a, v, ix) => {
                    let mut agg = st.op(a);
                    if let Val::I(_) = agg {
                        agg = zero_val(t);
                    }
                    let x = st.op(v);
                    fn ins(a: &mut Val, ix: &[u32], x: Val) {
                        if ix.is_empty() {
                            *a = x;
                        } else if let Val::Agg(v) = a {
                            ins(&mut Rc::make_mut(v)[ix[0] as usize], &ix[1..], x)
                        }
                    }
                    ins(&mut agg, ix, x);
                    st.cur.regs[*d as usize] = agg;
                    st.cur.ip += 1;
                }
                I::LoadT(t, d, p) => {
                    let q = st.op(p);
                    let a = self.conc(st, &q)?;
                    let v = self.load_t(st, t, a)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::StoreT(t, v, p) => {
                    let q = st.op(p);
                    let a = self.conc(st, &q)?;
                    let x = st.op(v);
                    self.store_t(st, t, a, &x)?;
                    st.cur.ip += 1;
                }
                I::Intr(n, w, d, args) => {
                    let a: Vec<Val> = args.iter().map(|o| st.op(o)).collect();
                    let v = self.intr(st, n, *w, &a)?;
                    st.set(*d, v);
                    st.cur.ip += 1;
                }
                I::CmpXchg(d, w, p, c, n) => {
                    let q = st.op(p);
                    let a = self.conc(st, &q)?;
                    let old = self.read(st, a, *w)?;
                    let cv = st.op(c);
                    let eq = icmp(Pred::Eq, *w, &old, &cv);
                    let b = self.decide_v(st, &eq)?;
                    if b {
                        let nv = st.op(n);
                        self.write(st, a, *w, &nv)?;
                    }
                    st.cur.regs[*d as usize] = Val::Agg(Rc::new(vec![old, Val::I(b as u64)]));
                    st.cur.ip += 1;
                }
                I::Rmw(op, w, d, p, v) => {
                    let q = st.op(p);
                    let a = self.conc(st, &q)?;
                    let old = self.read(st, a, *w)?;
                    let x = st.op(v);
                    let nv = match &**op {
                        "add" => bin2(Bin::Add, *w, &old, &x),
                        "sub" => bin2(Bin::Sub, *w, &old, &x),
                        "and" => bin2(Bin::And, *w, &old, &x),
                        "or" => bin2(Bin::Or, *w, &old, &x),
                        "xor" => bin2(Bin::Xor, *w, &old, &x),
                        "xchg" => x,
                        o => return bad(format!("rmw {o}")),
                    };
                    self.write(st, a, *w, &nv)?;
                    st.set(*d, old);
                    st.cur.ip += 1;
                }
                I::VBin(op, w, d, a, b) => {
                    let (x, y) = (st.op(a), st.op(b));
                    let v = vzip(&x, &y, |p, q| bin2(*op, *w, p, q))?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::VIcmp(p, w, d, a, b) => {
                    let (x, y) = (st.op(a), st.op(b));
                    let v = vzip(&x, &y, |s, t| icmp(*p, *w, s, t))?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::VSelect(d, w, c, a, b) => {
                    let (cv, x, y) = (st.op(c), st.op(a), st.op(b));
                    let v = match (&cv, &x, &y) {
                        (Val::Agg(c), Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(
                            (0..c.len())
                                .map(|i| match &c[i] {
                                    Val::I(k) => {
                                        if k & 1 == 1 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    Val::E(e) => {
                                        let (p, q) = (x[i].ex(*w), y[i].ex(*w));
                                        Val::of(cx().ite(*e, p, q))
                                    }
                                    _ => unreachable!(),
                                })
                                .collect(),
                        )),
                        _ => return bad("vselect"),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::VCast(k, f, t, d, a) => {
                    let x = st.op(a);
                    let v = match &x {
                        Val::Agg(v) => {
                            let mut o = vec![];
                            for e in v.iter() {
                                o.push(cast(*k, *f, *t, e)?);
                            }
                            Val::Agg(Rc::new(o))
                        }
                        _ => return bad("vcast"),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Bitcast(t, d, a) => {
                    let x = st.op(a);
                    let v = bitcast(&t.0, &t.1, &x)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::ExtEl(d, a, i) => {
                    let (x, i) = (st.op(a), st.op(i));
                    let k = self.conc(st, &i)?;
                    let v = match &x {
                        Val::Agg(v) => v[k as usize].clone(),
                        _ => return bad("extel"),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::InsEl(d, t, a, v, i) => {
                    let mut x = st.op(a);
                    if let Val::I(_) = x {
                        x = zero_val(t);
                    }
                    let i = st.op(i);
                    let k = self.conc(st, &i)?;
                    let e = st.op(v);
                    if let Val::Agg(v) = &mut x {
                        Rc::make_mut(v)[k as usize] = e;
                    }
                    st.cur.regs[*d as usize] = x;
                    st.cur.ip += 1;
                }
                I::Shuf(d, t, a, b, m) => {
                    let n = t.nfields();
                    let mut x = st.op(a);
                    let mut y = st.op(b);
                    if let Val::I(_) = x {
                        x = zero_val(t);
                    }
                    if let Val::I(_) = y {
                        y = zero_val(t);
                    }
                    let v = match (&x, &y) {
                        (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(
                            m.iter()
                                .map(|k| {
                                    let k = *k as usize;
                                    if k < n {
                                        x[k].clone()
                                    } else {
                                        y[k - n].clone()
                                    }
                                })
                                .collect(),
                        )),
                        _ => return bad("shuf"),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Fcmp(p, is64, d, a, b) => {
                    let (x, y) = (st.op(a), st.op(b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let (x, y) = if *is64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let base = match &p[1..] {
                        "eq" => x == y,
                        "ne" => x != y && !un,
                        "gt" => x > y,
                        "ge" => x >= y,
                        "lt" => x < y,
                        "le" => x <= y,
                        "rd" => !un,
                        "no" => un,
                        _ => return bad("fcmp"),
                    };
                    let r = if p.starts_with('u') { un || base } else { base };
                    st.cur.regs[*d as usize] = Val::I(r as u64);
                    st.cur.ip += 1;
                }
                I::Fneg(is64, d, a) => {
                    let x = st.op(a);
                    let x = self.conc(st, &x)?;
                    st.cur.regs[*d as usize] = Val::I(if *is64 { x ^ (1 << 63) } else { x ^ (1 << 31) });
                    st.cur.ip += 1;
                }
                I::Unreachable => return Err(Stop::Panic("unreachable executed".into())),
                I::Landing => return bad("landing pad"),
            }
        }
    }

    fn load_t(&self, st: &State, t: &Ty, a: u64) -> R<Val> {
        if !t.is_agg() {
            return self.read(st, a, t.bits());
        }
        if let Ty::Vec(n, e) = t {
            if e.bits() % 8 != 0 {
                let bits = self.read(st, a, *n as u32 * e.bits())?;
                return bitcast(&Ty::Int(*n as u32 * e.bits()), t, &bits);
            }
        }
        let mut v = vec![];
        for i in 0..t.nfields() {
            let (o, ft) = t.field_off(i);
            v.push(self.load_t(st, &ft, a + o)?);
        }
        Ok(Val::Agg(Rc::new(v)))
    }
    fn store_t(&self, st: &mut State, t: &Ty, a: u64, v: &Val) -> R<()> {
        if !t.is_agg() {
            return self.write(st, a, t.bits(), v);
        }
        if let Ty::Vec(n, e) = t {
            if e.bits() % 8 != 0 {
                let b = bitcast(t, &Ty::Int(*n as u32 * e.bits()), v)?;
                return self.write(st, a, *n as u32 * e.bits(), &b);
            }
        }
        let z;
        let v = if let Val::I(_) = v {
            z = zero_val(t);
            &z
        } else {
            v
        };
        match v {
            Val::Agg(x) => {
                for i in 0..t.nfields() {
                    let (o, ft) = t.field_off(i);
                    self.store_t(st, &ft, a + o, &x[i])?;
                }
                Ok(())
            }
            _ => bad("store_t"),
        }
    }

    /// symbolic address load: table lookup within one object when small, else fork
    fn sym_load(&mut self, st: &State, q: &Val, w: u32) -> R<Val> {
        let e = match q {
            Val::E(e) => *e,
            _ => return bad("sym load"),
        };
        let (lo, hi) = cx().iv(e);
        if lo >> 32 == hi >> 32 && hi - lo <= 1024 {
            if let Some(o) = self.obj(st, lo) {
                if (hi as u32 as u64) + (w as u64 + 7) / 8 <= o.len() {
                    // stride: assume elements at lo + k*step where step from trailing zeros of symbolic part
                    let n = (w + 7) / 8;
                    let mut vals: Vec<(u64, Val)> = vec![];
                    let mut a = lo;
                    let step = self.stride(e).max(1);
                    let first = lo;
                    if (hi - lo) / step <= 256 {
                        while a <= hi {
                            vals.push((a, o.read(a as u32, n, w)));
                            a += step;
                        }
                        let _ = first;
                        // runs of equal values -> ite on ranges
                        let mut r: Option<Eid> = None;
                        let mut i = vals.len();
                        while i > 0 {
                            let v = vals[i - 1].1.ex(w);
                            let mut j = i - 1;
                            while j > 0 && vals[j - 1].1.ex(w) == v {
                                j -= 1;
                            }
                            // values j..i equal v
                            r = Some(match r {
                                None => v,
                                Some(acc) => {
                                    let k = cx().konst(vals[i - 1].0 as u128, 64);
                                    let c = cx().cmp(Pred::Ule, e, k);
                                    cx().ite(c, v, acc)
                                }
                            });
                            i = j;
                        }
                        return Ok(Val::of(r.unwrap()));
                    }
                }
            }
        }
        let a = self.conc(st, q)?;
        self.read(st, a, w)
    }
    fn stride(&self, e: Eid) -> u64 {
        // base + (x << k): look for concat(.., 0_k)
        let c = cx();
        let n = c.n(e);
        match n.op {
            Op::Bin(Bin::Add) => {
                let (a, b) = (c.as_const(n.a), c.as_const(n.b));
                if let Some(_) = b {
                    return self.stride(n.a);
                }
                if let Some(_) = a {
                    return self.stride(n.b);
                }
                1
            }
            Op::Concat if c.as_const(n.b) == Some(0) => 1u64 << c.w(n.b).min(16),
            Op::Zext => self.stride(n.a),
            Op::Bin(Bin::Mul) => c.as_const(n.b).map(|k| k as u64).unwrap_or(1),
            _ => 1,
        }
    }

    fn bin(&mut self, st: &State, op: Bin, w: u32, x: &Val, y: &Val) -> R<Val> {
        match op {
            Bin::Fadd | Bin::Fsub | Bin::Fmul | Bin::Fdiv => {
                let (x, y) = (self.conc(st, x)?, self.conc(st, y)?);
                if w == 64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    let r = match op {
                        Bin::Fadd => x + y,
                        Bin::Fsub => x - y,
                        Bin::Fmul => x * y,
                        _ => x / y,
                    };
                    Ok(Val::I(r.to_bits()))
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op {
                        Bin::Fadd => x + y,
                        Bin::Fsub => x - y,
                        Bin::Fmul => x * y,
                        _ => x / y,
                    };
                    Ok(Val::I(r.to_bits() as u64))
                }
            }
            _ => Ok(bin2(op, w, x, y)),
        }
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        let mut fi = match &c.callee {
            Callee::Fn(i) => *i as u64,
            Callee::Ext(i) => return self.ext_call(st, *i, c),
            Callee::Ind(o) => {
                let v = st.op(o);
                let a = self.conc(st, &v)?;
                let id = a >> 32;
                if a & 0xffff_ffff != 0 || id < FN_BASE {
                    return bad(format!("indirect call to {a:#x}"));
                }
                if id >= EXT_BASE {
                    return self.ext_call(st, (id - EXT_BASE) as u32, c);
                }
                id - FN_BASE
            }
            Callee::Asm(a) => {
                if a.contains("cpuid") || a.contains("xgetbv") {
                    let n = c.ret.nfields();
                    st.set(c.dst, if n == 0 { Val::I(0) } else { Val::Agg(Rc::new(vec![Val::I(0); n])) });
                } else if a.len() <= 2 {
                    // black box (compiler fence): returns its argument if any
                    if c.dst != NODST {
                        let v = st.op(&c.args[0]);
                        st.set(c.dst, v);
                    }
                } else {
                    return bad(format!("asm {a}"));
                }
                st.cur.ip += 1;
                return Ok(());
            }
        };
        let args: Vec<Val> = c.args.iter().map(|o| st.op(o)).collect();
        if let Some(b) = self.over[fi as usize] {
            match b(self, st, &args) {
                Err(Stop::Bad(s)) if s == "@passthrough" => {}
                Err(Stop::Bad(s)) if s == "@fmt" => {
                    // redirect to the harness formatting hook with the (symbolic) value
                    let p = self.conc(st, &args[0])?;
                    let v = self.read(st, p, 64)?;
                    fi = self.fmt_hook.unwrap() as u64;
                    return self.push_call(st, fi as u32, vec![v, args[1].clone()], c.dst, c.normal.as_ref(), None);
                }
                Err(e) => return Err(e),
                Ok(v) => {
                    st.set(c.dst, v);
                    self.resume_caller(st, c.normal.as_ref());
                    return Ok(());
                }
            }
        }
        self.push_call(st, fi as u32, args, c.dst, c.normal.as_ref(), None)
    }

    fn ext_call(&mut self, st: &mut State, i: u32, c: &'static CallI) -> R<()> {
        let args: Vec<Val> = c.args.iter().map(|o| st.op(o)).collect();
        let n = self.m.exts[i as usize];
        match n {
            "vp_call" => {
                let f = self.conc(st, &args[0])?;
                let ret = self.conc(st, &args[2])?;
                let mut globals = vec![];
                for (k, g) in self.m.globs.iter().enumerate() {
                    if !g.is_const && !g.name.starts_with("VP_KEEP") {
                        if let Some(o) = st.objs.get(k) {
                            globals.push((k, o.clone()));
                        }
                    }
                }
                st.call_start = st.steps;
                let b = Rc::new(Barrier { ret, nfds: st.env.nfds(), globals });
                return self.push_call(st, ((f >> 32) - FN_BASE) as u32, vec![args[1].clone()], c.dst, c.normal.as_ref(), Some(b));
            }
            "vp_set_args" => {
                // run std's .init_array hook with (argc, argv, envp)
                let fi = self.m.fns.iter().position(|f| f.name.contains("really_init") || f.name.contains("init_wrapper"));
                return match fi {
                    Some(fi) => {
                        let nargs = self.m.func(fi as u32).nargs as usize;
                        let mut a = args.clone();
                        a.truncate(nargs);
                        a.resize(nargs, Val::I(0));
                        self.push_call(st, fi as u32, a, NODST, None, None)
                    }
                    None => bad("no really_init"),
                };
            }
            "__cxa_thread_atexit_impl" => {}
            _ => {}
        }
        match self.ext[i as usize] {
            Some(b) => {
                let v = b(self, st, &args)?;
                st.set(c.dst, v);
                self.resume_caller(st, c.normal.as_ref());
                Ok(())
            }
            None => bad(format!("unsupported external {n}")),
        }
    }

    fn intr(&mut self, st: &mut State, n: &str, w: u32, a: &[Val]) -> R<Val> {
        let base = n;
        let all_conc = a.iter().all(|v| matches!(v, Val::I(_)));
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let len = self.conc(st, &a[2])?;
            if len == 0 {
                return Ok(Val::I(0));
            }
            let d = self.conc(st, &a[0])?;
            let s = self.conc(st, &a[1])?;
            let o = self.readn(st, s, len)?;
            self.writen(st, d, &o)?;
            return Ok(Val::I(0));
        }
        if base.starts_with("memset") {
            let len = self.conc(st, &a[2])?;
            if len == 0 {
                return Ok(Val::I(0));
            }
            let d = self.conc(st, &a[0])?;
            let mut o = Obj::new(len as usize);
            match &a[1] {
                Val::I(b) => o.data.fill(*b as u8),
                Val::E(e) => {
                    for k in 0..len {
                        o.set_sym_byte(k as u32, *e, 0);
                    }
                }
                _ => return bad("memset"),
            }
            self.writen(st, d, &o)?;
            return Ok(Val::I(0));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if base.starts_with("is.constant") {
            return Ok(Val::I(0));
        }
        if base.starts_with("expect") {
            return Ok(a[0].clone());
        }
        if base.starts_with("vector.reduce") {
            let v = match &a[0] {
                Val::Agg(v) => v.clone(),
                _ => return bad("reduce"),
            };
            let op = if base.contains(".or") {
                Bin::Or
            } else if base.contains(".and") {
                Bin::And
            } else if base.contains(".add") {
                Bin::Add
            } else if base.contains(".xor") {
                Bin::Xor
            } else {
                return bad(format!("intrinsic {n}"));
            };
            let mut acc = v[0].clone();
            for x in &v[1..] {
                acc = bin2(op, w, &acc, x);
            }
            return Ok(acc);
        }
        // element-wise on vectors
        if let Val::Agg(v0) = &a[0] {
            let mut out = vec![];
            for i in 0..v0.len() {
                let ai: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::Agg(v) => v[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                out.push(self.intr(st, n, w, &ai)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let pair = |x: Val, y: Val| Val::Agg(Rc::new(vec![x, y]));
        let full = mask128(u128::MAX, w);
        let _ = full;
        let c = cx();
        if let Some(op) = [("umin", Pred::Ult), ("umax", Pred::Ugt), ("smin", Pred::Slt), ("smax", Pred::Sgt)].iter().find(|x| base.starts_with(x.0)) {
            let k = icmp(op.1, w, &a[0], &a[1]);
            return Ok(sel(w, &k, &a[0], &a[1]));
        }
        if base.starts_with("uadd.with.overflow") || base.starts_with("usub.with.overflow") || base.starts_with("sadd.with.overflow") || base.starts_with("ssub.with.overflow") {
            let op = if base.contains("add") { Bin::Add } else { Bin::Sub };
            let r = bin2(op, w, &a[0], &a[1]);
            let o = if base.starts_with("uadd") {
                icmp(Pred::Ult, w, &r, &a[0])
            } else if base.starts_with("usub") {
                icmp(Pred::Ult, w, &a[0], &a[1])
            } else {
                // signed: extend by one bit
                let (x, y) = (a[0].ex(w), a[1].ex(w));
                if w >= 128 {
                    return bad("wide signed overflow");
                }
                let (x, y) = (c.sext(x, w + 1), c.sext(y, w + 1));
                let s = c.bin(op, x, y);
                let t = c.sext(r.ex(w), w + 1);
                let e = c.cmp(Pred::Ne, s, t);
                Val::of(e)
            };
            return Ok(pair(r, o));
        }
        if base.starts_with("umul.with.overflow") || base.starts_with("smul.with.overflow") {
            if let (Some(x), Some(y)) = (a[0].conc(), a[1].conc()) {
                if w <= 64 {
                    let (r, o) = if base.starts_with('u') {
                        let p = x * y;
                        (mask128(p, w), p >> w != 0)
                    } else {
                        let p = sext(x as u64, w) as i128 * sext(y as u64, w) as i128;
                        let r = mask128(p as u128, w);
                        (r, sext(r as u64, w) as i128 != p)
                    };
                    return Ok(pair(Val::from128(r, w), Val::I(o as u64)));
                }
                let p = x.wrapping_mul(y);
                let o = x.checked_mul(y).is_none();
                return Ok(pair(Val::from128(p, w), Val::I(o as u64)));
            }
            if w > 64 {
                return bad("wide mul overflow");
            }
            let (x, y) = (a[0].ex(w), a[1].ex(w));
            // by interval first
            let (hx, hy) = (c.iv(x).1 as u128, c.iv(y).1 as u128);
            let r = bin2(Bin::Mul, w, &a[0], &a[1]);
            let lim = if base.starts_with('u') { mask128(u128::MAX, w) } else { mask128(u128::MAX, w - 1) };
            if hx * hy <= lim {
                return Ok(pair(r, Val::I(0)));
            }
            if base.starts_with('s') {
                let (x2, y2) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                let p = c.bin(Bin::Mul, x2, y2);
                let t = c.sext(r.ex(w), 2 * w);
                return Ok(pair(r, Val::of(c.cmp(Pred::Ne, p, t))));
            }
            let (x2, y2) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
            let p = c.bin(Bin::Mul, x2, y2);
            let h = c.extract(p, w, w);
            let z = c.konst(0, w);
            return Ok(pair(r, Val::of(c.cmp(Pred::Ne, h, z))));
        }
        if base.starts_with("usub.sat") {
            let k = icmp(Pred::Ult, w, &a[0], &a[1]);
            let r = bin2(Bin::Sub, w, &a[0], &a[1]);
            return Ok(sel(w, &k, &Val::I(0), &r));
        }
        if base.starts_with("uadd.sat") {
            let r = bin2(Bin::Add, w, &a[0], &a[1]);
            let k = icmp(Pred::Ult, w, &r, &a[0]);
            return Ok(sel(w, &k, &Val::from128(mask128(u128::MAX, w), w), &r));
        }
        if base.starts_with("ucmp") || base.starts_with("scmp") {
            // result width from name suffix: i8
            let rw: u32 = base.split('.').nth(1).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
            let (p, q) = if base.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let lt = icmp(p, w, &a[0], &a[1]);
            let gt = icmp(q, w, &a[0], &a[1]);
            let x = sel(rw, &gt, &Val::I(1), &Val::I(0));
            return Ok(sel(rw, &lt, &Val::I(mask64(u64::MAX, rw)), &x));
        }
        if base.starts_with("abs") {
            let z = Val::from128(0, w);
            let n = bin2(Bin::Sub, w, &z, &a[0]);
            let k = icmp(Pred::Slt, w, &a[0], &z);
            return Ok(sel(w, &k, &n, &a[0]));
        }
        if base.starts_with("fshl") || base.starts_with("fshr") {
            let s = self.conc(st, &a[2])? % w as u64;
            let s = if base.starts_with("fshl") { s as u32 } else { (w - s as u32) % w };
            if s == 0 {
                return Ok(if base.starts_with("fshl") { a[0].clone() } else { a[1].clone() });
            }
            if all_conc && w <= 64 {
                let (x, y) = (a[0].conc().unwrap(), a[1].conc().unwrap());
                let v = ((x << w | y) >> (w - s)) as u64;
                return Ok(Val::I(mask64(v, w)));
            }
            let (x, y) = (a[0].ex(w), a[1].ex(w));
            let h = c.extract(x, 0, w - s);
            let l = c.extract(y, w - s, s);
            return Ok(Val::of(c.concat(h, l)));
        }
        if base.starts_with("fabs") {
            let x = self.conc(st, &a[0])?;
            return Ok(Val::I(x & !(1 << 63)));
        }
        if base.starts_with("bswap") {
            if let Some(x) = a[0].conc() {
                let n = w / 8;
                let mut r = 0u128;
                for k in 0..n {
                    r |= (x >> (8 * k) & 0xff) << (8 * (n - 1 - k));
                }
                return Ok(Val::from128(r, w));
            }
            let x = a[0].ex(w);
            let mut acc = c.extract(x, 0, 8);
            for k in 1..w / 8 {
                let b = c.extract(x, 8 * k, 8);
                acc = c.concat(acc, b);
            }
            return Ok(Val::of(acc));
        }
        // bit counting: concrete or ite chain
        if base.starts_with("ctpop") || base.starts_with("cttz") || base.starts_with("ctlz") || base.starts_with("bitreverse") {
            if let Some(x) = a[0].conc() {
                let r = if base.starts_with("ctpop") {
                    x.count_ones() as u128
                } else if base.starts_with("cttz") {
                    if x == 0 {
                        w as u128
                    } else {
                        x.trailing_zeros() as u128
                    }
                } else if base.starts_with("ctlz") {
                    if x == 0 {
                        w as u128
                    } else {
                        (x.leading_zeros() - (128 - w)) as u128
                    }
                } else {
                    x.reverse_bits() >> (128 - w)
                };
                return Ok(Val::from128(r, w));
            }
            let x = a[0].ex(w);
            if base.starts_with("cttz") || base.starts_with("ctlz") {
                let mut acc = c.konst(w as u128, w);
                let order: Vec<u32> = if base.starts_with("cttz") { (0..w).rev().collect() } else { (0..w).collect() };
                for k in order {
                    let b = c.extract(x, k, 1);
                    let v = c.konst(if base.starts_with("cttz") { k } else { w - 1 - k } as u128, w);
                    acc = c.ite(b, v, acc);
                }
                return Ok(Val::of(acc));
            }
            if base.starts_with("ctpop") {
                let mut acc = c.konst(0, w);
                for k in 0..w {
                    let b = c.extract(x, k, 1);
                    let b = c.zext(b, w);
                    acc = c.bin(Bin::Add, acc, b);
                }
                return Ok(Val::of(acc));
            }
        }
        bad(format!("intrinsic {n}"))
    }
}

mod smallv {
    pub type SV = Vec<crate::val::Val>;
}

pub fn sel(w: u32, c: &Val, a: &Val, b: &Val) -> Val {
    match c {
        Val::I(k) => {
            if k & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        Val::E(e) => {
            let (x, y) = (a.ex(w), b.ex(w));
            Val::of(cx().ite(*e, x, y))
        }
        _ => panic!(),
    }
}

#[inline]
pub fn bin2(op: Bin, w: u32, x: &Val, y: &Val) -> Val {
    if let (Val::I(a), Val::I(b)) = (x, y) {
        if w <= 64 {
            let r = match op {
                Bin::Add => a.wrapping_add(*b),
                Bin::Sub => a.wrapping_sub(*b),
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                Bin::Mul => a.wrapping_mul(*b),
                Bin::Shl => {
                    if *b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                Bin::Lshr => {
                    if *b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                _ => conc_bin(op, *a as u128, *b as u128, w) as u64,
            };
            return Val::I(mask64(r, w));
        }
    }
    if let (Some(a), Some(b)) = (x.conc(), y.conc()) {
        return Val::from128(conc_bin(op, a, b, w), w);
    }
    let (a, b) = (x.ex(w), y.ex(w));
    Val::of(cx().bin(op, a, b))
}

#[inline]
pub fn icmp(p: Pred, w: u32, x: &Val, y: &Val) -> Val {
    if let (Val::I(a), Val::I(b)) = (x, y) {
        let r = match p {
            Pred::Eq => a == b,
            Pred::Ne => a != b,
            Pred::Ult => a < b,
            Pred::Ule => a <= b,
            Pred::Ugt => a > b,
            Pred::Uge => a >= b,
            Pred::Slt => sext(*a, w) < sext(*b, w),
            Pred::Sle => sext(*a, w) <= sext(*b, w),
            Pred::Sgt => sext(*a, w) > sext(*b, w),
            Pred::Sge => sext(*a, w) >= sext(*b, w),
        };
        return Val::I(r as u64);
    }
    if let (Some(a), Some(b)) = (x.conc(), y.conc()) {
        return Val::I(conc_cmp(p, a, b, w) as u64);
    }
    let (a, b) = (x.ex(w), y.ex(w));
    Val::of(cx().cmp(p, a, b))
}

fn vzip(x: &Val, y: &Val, mut f: impl FnMut(&Val, &Val) -> Val) -> R<Val> {
    match (x, y) {
        (Val::Agg(a), Val::Agg(b)) => Ok(Val::Agg(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| f(p, q)).collect()))),
        (Val::Agg(a), Val::I(0)) => Ok(Val::Agg(Rc::new(a.iter().map(|p| f(p, &Val::I(0))).collect()))),
        (Val::I(0), Val::Agg(b)) => Ok(Val::Agg(Rc::new(b.iter().map(|q| f(&Val::I(0), q)).collect()))),
        _ => bad("vzip"),
    }
}

pub fn cast(k: Cast, f: u32, t: u32, x: &Val) -> R<Val> {
    Ok(match x {
        Val::I(v) => match k {
            Cast::Trunc => Val::I(mask64(*v, t)),
            Cast::Zext => Val::from128(*v as u128, t),
            Cast::Sext => {
                let s = sext(*v, f);
                Val::from128(mask128(s as i128 as u128, t), t)
            }
            Cast::Same => Val::I(*v),
            Cast::U2F => Val::I(if t == 64 { (*v as f64).to_bits() } else { (*v as f32).to_bits() as u64 }),
            Cast::S2F => {
                let s = sext(*v, f);
                Val::I(if t == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 })
            }
            Cast::F2U => Val::I(if f == 64 { f64::from_bits(*v) as u64 } else { f32::from_bits(*v as u32) as u64 }),
            Cast::F2S => Val::I(mask64(if f == 64 { f64::from_bits(*v) as i64 } else { f32::from_bits(*v as u32) as i64 } as u64, t)),
            Cast::Fext => Val::I((f32::from_bits(*v as u32) as f64).to_bits()),
            Cast::Ftrunc => Val::I((f64::from_bits(*v) as f32).to_bits() as u64),
        },
        Val::W(v) => match k {
            Cast::Trunc => Val::from128(mask128(**v, t), t),
            Cast::Zext => Val::from128(**v, t),
            Cast::Same => x.clone(),
            _ => return bad("wide cast"),
        },
        Val::E(e) => {
            let c = cx();
            match k {
                Cast::Trunc => Val::of(c.extract(*e, 0, t)),
                Cast::Zext => Val::of(c.zext(*e, t)),
                Cast::Sext => Val::of(c.sext(*e, t)),
                Cast::Same => x.clone(),
                _ => return bad("symbolic float cast"),
            }
        }
        Val::Agg(_) => return bad("agg cast"),
    })
}

pub fn bitcast(f: &Ty, t: &Ty, x: &Val) -> R<Val> {
    let flat = |ty: &Ty, v: &Val| -> R<Val> {
        if let (Ty::Vec(n, e), Val::Agg(vs)) = (ty, v) {
            let w = e.bits();
            let tot = w * *n as u32;
            if tot > 128 {
                return bad("bitcast > 128");
            }
            if vs.iter().all(|v| v.conc().is_some()) {
                let mut r = 0u128;
                for (i, v) in vs.iter().enumerate() {
                    r |= mask128(v.conc().unwrap(), w) << (w * i as u32);
                }
                return Ok(Val::from128(r, tot));
            }
            let mut acc = vs[0].ex(w);
            for v in &vs[1..] {
                let h = v.ex(w);
                acc = cx().concat(h, acc);
            }
            Ok(Val::of(acc))
        } else {
            Ok(v.clone())
        }
    };
    let z;
    let x = if let (Ty::Vec(..), Val::I(0)) = (f, x) {
        z = zero_val(f);
        &z
    } else {
        x
    };
    let v = flat(f, x)?;
    if let Ty::Vec(n, e) = t {
        let w = e.bits();
        let tot = w * *n as u32;
        let out = (0..*n as u32)
            .map(|i| match v.conc() {
                Some(k) => Val::from128(mask128(k >> (w * i), w), w),
                None => Val::of(cx().extract(v.ex(tot), w * i, w)),
            })
            .collect();
        Ok(Val::Agg(Rc::new(out)))
    } else {
        Ok(v)
    }
}
