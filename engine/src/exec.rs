//! The symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::val::Val;
use crate::z3::{Res, MV, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub fn int_bin(op: Bin, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Bin::Add => x.wrapping_add(y),
            Bin::Sub => x.wrapping_sub(y),
            Bin::Mul => x.wrapping_mul(y),
            Bin::UDiv => x.checked_div(y)?,
            Bin::URem => x.checked_rem(y)?,
            Bin::SDiv => sx(x, w).checked_div(sx(y, w))? as u128,
            Bin::SRem => sx(x, w).checked_rem(sx(y, w))? as u128,
            Bin::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Bin::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Bin::AShr => {
                let y = y.min(w as u128 - 1);
                (sx(x, w) >> y) as u128
            }
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            _ => return None,
        } & m,
    )
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Block_ {
    Run,
    /// blocked until the u64 at the address differs from the value
    WaitNe(u64, u64),
    Futex(u64),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub block: Block_,
    pub tls: Rc<HashMap<u32, u32>>,
    pub user: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    Var(u32),
    Choice(u32, u32),
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Rc<Vec<TId>>,
    pub known: Rc<HashMap<TId, bool>>,
    pub trace: Rc<Vec<Item>>,
    pub vars: Rc<Vec<u32>>,
    pub model: Option<Rc<Vec<MV>>>,
    pub pending: Option<u32>,
    pub allow_panic: bool,
    pub steps: u64,
    pub out: Rc<Vec<u8>>,
    pub err_out: Rc<Vec<u8>>,
    pub files: Rc<Vec<VFile>>,
    pub preempt_left: u32,
    pub switch_left: u32,
    /// a scheduling decision already taken for the current instruction
    pub sched_done: bool,
    pub notes: Rc<Vec<String>>,
    pub fnotes: Rc<Vec<(String, Val)>>,
    pub forks: u32,
    pub id: u64,
    pub nderived: u32,
}

#[derive(Clone)]
pub struct VFile {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub pos: usize,
    pub open: bool,
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// harness function returned
    Ok,
    Assume,
    Panic(String),
    Violation(String),
    Deadlock,
    Exit(i32),
    Abort(String),
    MemErr(String),
    StepLimit,
    Unsupported(String),
    Infeasible,
    /// the current thread blocked, pick another one and continue
    Resched,
}

type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Cfg {
    pub entry: String,
    pub params: Vec<i64>,
    pub max_steps: u64,
    pub timeout: f64,
    pub merge_select: bool,
    pub ncpu: usize,
    pub preempt: u32,
    pub switches: u32,
    pub stop_on_violation: bool,
    pub rounding: bool,
    pub shard: Option<(u32, u32)>,
    pub max_paths: u64,
    pub verbose: bool,
    pub choice_rand: u64,
    pub expect_panic_free: bool,
    pub logic: String,
    pub replay: Option<Vec<(char, u128)>>,
    pub sched_atomics: bool,
    pub samples: usize,
    pub uf_float: bool,
    pub track_errors: bool,
}

#[derive(Default, Clone, Debug)]
pub struct CheckStat {
    pub reached: u64,
    pub trivially: u64,
    pub solver: u64,
    pub violated: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    pub kind: String,
    pub trace: Vec<String>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub tm: Terms,
    pub z: Z3,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub ginit: Vec<Option<Rc<Obj>>>,
    pub handlers: Vec<Option<H>>,
    pub cur_model_id: *const Vec<MV>,
    env: Vec<Option<MV>>,
    memo: Vec<(u32, EV)>,
    epoch: u32,
    pub paths: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, CheckStat>,
    pub reach: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    /// inputs that follow a path up to the point the engine could not continue
    pub suspects: Vec<Viol>,
    pub insts: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub funcs_used: Vec<bool>,
    pub var_cache: HashMap<(usize, u8, Q, Q, u32, TId), u32>,
    pub t0: std::time::Instant,
    pub truncated: bool,
    pub errors: Vec<String>,
    pub next_id: u64,
    pub max_pc: usize,
    pub replay_pos: usize,
    pub solver_unknown: u64,
    pub assumes: u64,
    pub fork_sites: HashMap<String, u64>,
    pub sample_traces: Vec<Viol>,
    pub max_vars: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EV {
    B(bool),
    V(u128),
    Q(Q),
    None,
}

/// looks like a number, so that code that inspects the text treats it like one
pub const COST_TEXT: &str = "8888887777.0";
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    /// the standard library's text form of a f64: printing (true) and reading (false)
    Text(bool),
    Defined,
    Panic,
    Nop,
    Intr(u16),
    Libc(u16),
    Llvm(u16),
    Unknown,
}

impl<'m> Addrs for &'m Module {
    fn sym_addr(&self, name: &str) -> u64 {
        ((self.resolve(name) as u64) + 1) << 32
    }
}

pub fn oid(a: u64) -> u32 {
    (a >> 32) as u32
}
pub fn off(a: u64) -> u32 {
    a as u32
}
pub fn addr(id: u32, o: u32) -> u64 {
    ((id as u64) << 32) | o as u64
}

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

/// a single-precision constant as a double
fn wide(ty: &Ty, v: &Val) -> Val {
    match v {
        Val::C(x) if *ty == Ty::F32 => Val::C((f32::from_bits(*x as u32) as f64).to_bits() as u128),
        v => v.clone(),
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Exec<'m> {
        let n = m.syms.len();
        let mut z = Z3::new(&cfg.logic, 60_000);
        z.uf_float = cfg.uf_float;
        let mut tm = Terms::new();
        tm.uf_float = cfg.uf_float;
        Exec {
            m,
            tm,
            z,
            cfg,
            work: vec![],
            ginit: vec![None; n + 1],
            handlers: vec![None; n],
            cur_model_id: std::ptr::null(),
            env: vec![],
            memo: vec![],
            epoch: 1,
            paths: 0,
            outcomes: BTreeMap::new(),
            checks: BTreeMap::new(),
            reach: BTreeMap::new(),
            viols: vec![],
            suspects: vec![],
            insts: 0,
            forks: 0,
            infeasible: 0,
            funcs_used: vec![false; n],
            var_cache: HashMap::new(),
            t0: std::time::Instant::now(),
            truncated: false,
            errors: vec![],
            next_id: 1,
            max_pc: 0,
            replay_pos: 0,
            solver_unknown: 0,
            assumes: 0,
            fork_sites: HashMap::new(),
            sample_traces: vec![],
            max_vars: 0,
        }
    }

    // ------------------------------------------------------------ models
    fn load_model(&mut self, st: &State) -> bool {
        match &st.model {
            None => false,
            Some(m) => {
                let p = Rc::as_ptr(m);
                if p != self.cur_model_id || self.cur_model_len() != m.len() {
                    self.cur_model_id = p;
                    self.epoch += 1;
                    for e in self.env.iter_mut() {
                        *e = None;
                    }
                    self.env.resize(self.tm.vars.len(), None);
                    for (k, v) in st.vars.iter().zip(m.iter()) {
                        self.env[*k as usize] = Some(*v);
                    }
                    // keep the model alive so the pointer cannot be reused
                    KEEP.with(|k| *k.borrow_mut() = Some(m.clone()));
                }
                true
            }
        }
    }
    fn cur_model_len(&self) -> usize {
        KEEP.with(|k| k.borrow().as_ref().map_or(usize::MAX, |m| m.len()))
    }
    pub fn eval(&mut self, t: TId) -> EV {
        if let Some((e, v)) = self.memo.get(t as usize) {
            if *e == self.epoch {
                return *v;
            }
        }
        let r = self.eval0(t);
        if self.memo.len() <= t as usize {
            self.memo.resize(t as usize + 4096, (0, EV::None));
        }
        self.memo[t as usize] = (self.epoch, r);
        r
    }
    fn evb(&mut self, t: TId) -> Option<bool> {
        match self.eval(t) {
            EV::B(b) => Some(b),
            _ => None,
        }
    }
    fn evv(&mut self, t: TId) -> Option<u128> {
        match self.eval(t) {
            EV::V(b) => Some(b),
            _ => None,
        }
    }
    fn evq(&mut self, t: TId) -> Option<Q> {
        match self.eval(t) {
            EV::Q(b) => Some(b),
            _ => None,
        }
    }
    fn eval0(&mut self, t: TId) -> EV {
        self.eval1(t).unwrap_or(EV::None)
    }
    fn eval1(&mut self, t: TId) -> Option<EV> {
        let var = |s: &Self, i: u32| s.env.get(i as usize).copied().flatten();
        Some(match self.tm.get(t).clone() {
            T::True => EV::B(true),
            T::False => EV::B(false),
            T::BVarB(i) => match var(self, i)? {
                MV::B(x) => EV::B(x != 0),
                _ => return None,
            },
            T::Not(a) => EV::B(!self.evb(a)?),
            T::And(a, b) => {
                if !self.evb(a)? {
                    EV::B(false)
                } else {
                    EV::B(self.evb(b)?)
                }
            }
            T::Or(a, b) => {
                if self.evb(a)? {
                    EV::B(true)
                } else {
                    EV::B(self.evb(b)?)
                }
            }
            T::Iff(a, b) => EV::B(self.evb(a)? == self.evb(b)?),
            T::LinLt(l) => EV::B(self.evq(l)?.n < 0),
            T::LinLe(l) => EV::B(self.evq(l)?.n <= 0),
            T::LinEq(l) => EV::B(self.evq(l)?.n == 0),
            T::Lin(l) => {
                let mut s = l.k;
                for (a, q) in l.v.iter() {
                    let x = self.evq(*a)?;
                    s = s.try_add(x.try_mul(*q)?)?;
                }
                EV::Q(s)
            }
            T::RVar(i) => match var(self, i)? {
                MV::Q(q) => EV::Q(q),
                _ => return None,
            },
            T::RIte(c, a, b) => {
                if self.evb(c)? {
                    EV::Q(self.evq(a)?)
                } else {
                    EV::Q(self.evq(b)?)
                }
            }
            T::RUf(..) => return None,
            T::BvC(_, x) => EV::V(x),
            T::BvVar(i, _) | T::FVar(i) => match var(self, i)? {
                MV::B(x) => EV::V(x),
                _ => return None,
            },
            T::BvBin(op, w, a, b) => {
                let (x, y) = (self.evv(a)?, self.evv(b)?);
                let r = match int_bin(op, w, x, y) {
                    Some(r) => r,
                    None => match op {
                        Bin::UDiv => mask(w),
                        Bin::URem => x,
                        _ => return None,
                    },
                };
                EV::V(r)
            }
            T::BvIte(_, c, a, b) | T::FIte(c, a, b) => {
                if self.evb(c)? {
                    EV::V(self.evv(a)?)
                } else {
                    EV::V(self.evv(b)?)
                }
            }
            T::Zext(_, a) => EV::V(self.evv(a)?),
            T::Sext(w, a) => {
                let aw = self.tm.bvw(a);
                EV::V(sx(self.evv(a)?, aw) as u128 & mask(w))
            }
            T::Extract(h, l, a) => EV::V((self.evv(a)? >> l) & mask(h - l + 1)),
            T::Concat(a, b) => {
                let w = self.tm.bvw(b);
                EV::V((self.evv(a)? << w) | self.evv(b)?)
            }
            T::BvEq(a, b) => EV::B(self.evv(a)? == self.evv(b)?),
            T::BvUlt(a, b) => EV::B(self.evv(a)? < self.evv(b)?),
            T::BvSlt(a, b) => {
                let w = self.tm.bvw(a);
                EV::B(sx(self.evv(a)?, w) < sx(self.evv(b)?, w))
            }
            T::FC(x) => EV::V(x as u128),
            T::FOp2(op, a, b) => {
                if self.tm.uf_float && !matches!(op, FOp::Neg | FOp::Abs) {
                    return None;
                }
                let x = f64::from_bits(self.evv(a)? as u64);
                let y = f64::from_bits(self.evv(b)? as u64);
                let r = match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Sqrt => x.sqrt(),
                    FOp::Neg => -x,
                    FOp::Abs => x.abs(),
                };
                EV::V(r.to_bits() as u128)
            }
            T::FEq(a, b) => EV::B(f64::from_bits(self.evv(a)? as u64) == f64::from_bits(self.evv(b)? as u64)),
            T::FLt(a, b) => EV::B(f64::from_bits(self.evv(a)? as u64) < f64::from_bits(self.evv(b)? as u64)),
            T::FLe(a, b) => EV::B(f64::from_bits(self.evv(a)? as u64) <= f64::from_bits(self.evv(b)? as u64)),
            T::FIsNan(a) => EV::B(f64::from_bits(self.evv(a)? as u64).is_nan()),
            T::FBits(a) | T::FFromBits(a) => EV::V(self.evv(a)?),
        })
    }

    // ------------------------------------------------------------ decisions
    fn assume_known(&mut self, st: &mut State, c: TId) {
        if c == TRUE {
            return;
        }
        let nc = self.tm.not(c);
        Rc::make_mut(&mut st.pc).push(c);
        self.max_pc = self.max_pc.max(st.pc.len());
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(nc, false);
        if let T::And(a, b) = self.tm.get(c).clone() {
            for x in [a, b] {
                let nx = self.tm.not(x);
                let k = Rc::make_mut(&mut st.known);
                k.insert(x, true);
                k.insert(nx, false);
            }
        }
    }
    fn query(&mut self, st: &State, extra: &[TId]) -> (Res, Option<Rc<Vec<MV>>>) {
        let (r, m) = self.z.check(&self.tm, &st.pc, extra, &[], &st.vars);
        if r == Res::Unknown {
            self.solver_unknown += 1;
        }
        (r, m.map(Rc::new))
    }
    /// decide a symbolic condition; the other feasible side is queued as a copy of the state
    /// before the current instruction
    pub fn decide(&mut self, st: &mut State, c: TId) -> R<bool> {
        if c == TRUE {
            return Ok(true);
        }
        if c == FALSE {
            return Ok(false);
        }
        if let Some(b) = st.known.get(&c) {
            return Ok(*b);
        }
        let nc = self.tm.not(c);
        let side = if self.load_model(st) { self.evb(c) } else { None };
        let side = match side {
            Some(s) => s,
            None => {
                // no usable model: find a feasible side
                let (r, m) = self.query(st, &[c]);
                match r {
                    Res::Sat => {
                        st.model = m;
                        true
                    }
                    Res::Unsat => {
                        self.assume_known(st, nc);
                        return Ok(false);
                    }
                    Res::Unknown => return unsup("solver returned unknown"),
                }
            }
        };
        let other = if side { nc } else { c };
        let (r, m) = self.query(st, &[other]);
        match r {
            Res::Sat => {
                let mut o = st.clone();
                o.id = self.next_id;
                self.next_id += 1;
                o.forks += 1;
                self.assume_known(&mut o, other);
                o.model = m;
                if self.cfg.verbose {
                    let f = st.th[st.cur].frames.last().unwrap();
                    let s = format!("{} b{} i{}", pretty(&self.m.syms[f.f.sym as usize].name), f.blk, f.ip);
                    *self.fork_sites.entry(s).or_insert(0) += 1;
                }
                self.work.push(o);
                self.forks += 1;
                st.forks += 1;
            }
            Res::Unsat => self.infeasible += 1,
            Res::Unknown => return unsup("solver returned unknown"),
        }
        let c2 = if side { c } else { nc };
        if r == Res::Unsat {
            // implied: remember without growing the path condition
            let k = Rc::make_mut(&mut st.known);
            k.insert(c, side);
            k.insert(nc, !side);
        } else {
            self.assume_known(st, c2);
        }
        Ok(side)
    }
    pub fn decide_val(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(*x & 1 == 1),
            Val::T(t) => {
                let c = self.as_bool(*t);
                self.decide(st, c)
            }
            _ => unsup("decide on aggregate"),
        }
    }
    pub fn as_bool(&mut self, t: TId) -> TId {
        match self.tm.sort(t) {
            Sort::Bool => t,
            Sort::Bv(w) => {
                let b = if w == 1 { t } else { self.tm.extract(0, 0, t) };
                let one = self.tm.bvc(1, 1);
                self.tm.bveq(b, one)
            }
            _ => panic!("as_bool of float"),
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::T(t) => {
                let t = self.as_bv(*t, w)?;
                if let Some(k) = self.tm.bv_const(t) {
                    return Ok(k);
                }
                loop {
                    let x = if self.load_model(st) { self.evv(t) } else { None };
                    let x = match x {
                        Some(x) => x,
                        None => {
                            let (r, m) = self.query(st, &[]);
                            if r != Res::Sat || m.is_none() {
                                return unsup("concretize: no model");
                            }
                            st.model = m;
                            continue;
                        }
                    };
                    let k = self.tm.bvc(w, x);
                    let c = self.tm.bveq(t, k);
                    if self.decide(st, c)? {
                        return Ok(x);
                    }
                }
            }
            _ => unsup("concretize aggregate"),
        }
    }
    /// integer view of a term
    pub fn as_bv(&mut self, t: TId, w: u32) -> R<TId> {
        match self.tm.sort(t) {
            Sort::Bool => Ok(self.tm.bool_to_bv(w, t)),
            Sort::Bv(x) if x == w => Ok(t),
            Sort::Bv(x) => unsup(format!("bv width {} vs {}", x, w)),
            Sort::Fp => Ok(match self.tm.get(t).clone() {
                T::FFromBits(b) => b,
                _ => self.tm.mk(T::FBits(t)),
            }),
            Sort::Real => unsup(format!("integer use of a real term {}", self.tm.show(t))),
        }
    }
    pub fn bvt(&mut self, v: &Val, w: u32) -> R<TId> {
        match v {
            Val::C(x) => Ok(self.tm.bvc(w, *x)),
            Val::T(t) => self.as_bv(*t, w),
            _ => unsup("bv of aggregate"),
        }
    }
    pub fn boolt(&mut self, v: &Val) -> TId {
        match v {
            Val::C(x) => self.tm.b(*x & 1 == 1),
            Val::T(t) => self.as_bool(*t),
            _ => panic!("bool of aggregate"),
        }
    }
    /// normal form of a symbolic result
    pub fn norm(&self, t: TId) -> Val {
        match self.tm.get(t) {
            T::True => Val::C(1),
            T::False => Val::C(0),
            T::BvC(_, x) => Val::C(*x),
            T::FC(x) => Val::C(*x as u128),
            T::Lin(l) if l.v.is_empty() => {
                let x = l.k.to_f64();
                if Q::from_f64(x) == Some(l.k) {
                    Val::C(x.to_bits() as u128)
                } else {
                    Val::T(t)
                }
            }
            _ => Val::T(t),
        }
    }

    // ------------------------------------------------------------ variables
    pub fn new_var(&mut self, st: &mut State, sort: Sort, lo: Q, hi: Q, int: bool) -> TId {
        let pos = st.vars.len();
        let tag = match sort {
            Sort::Bool => 0,
            Sort::Bv(_) => 1,
            Sort::Real => 2,
            Sort::Fp => 3,
        };
        let w = if let Sort::Bv(w) = sort { w } else { int as u32 };
        let key = (pos, tag, lo, hi, w, 0);
        let id = match self.var_cache.get(&key) {
            Some(i) => *i,
            None => {
                let (i, _) = self.tm.new_var(VarInfo { sort, lo, hi, int, derived: false });
                self.var_cache.insert(key, i);
                i
            }
        };
        let t = self.tm.var_terms[id as usize];
        self.add_var(st, id, match sort {
            Sort::Real => MV::Q(lo),
            Sort::Bv(_) => MV::B(lo.n as u128),
            _ => MV::B(0),
        });
        Rc::make_mut(&mut st.trace).push(Item::Var(id));
        match sort {
            Sort::Real => {
                // lo <= t <= hi; not simplified through the interval cache
                let kl = self.tm.lin_c(lo);
                let kh = self.tm.lin_c(hi);
                let a = self.tm.lin_add(kl, t, Q::int(-1));
                let b = self.tm.lin_add(t, kh, Q::int(-1));
                let a = self.tm.mk(T::LinLe(a));
                let b = self.tm.mk(T::LinLe(b));
                let pc = Rc::make_mut(&mut st.pc);
                pc.push(a);
                pc.push(b);
            }
            Sort::Bv(w) => {
                if lo.n > 0 {
                    let l = self.tm.bvc(w, lo.n as u128);
                    let c = self.tm.bvult(t, l);
                    let c = self.tm.not(c);
                    self.assume_known(st, c);
                }
                if (hi.n as u128) < mask(w) {
                    let l = self.tm.bvc(w, hi.n as u128);
                    let c = self.tm.bvult(l, t);
                    let c = self.tm.not(c);
                    self.assume_known(st, c);
                }
            }
            Sort::Fp if lo.lt(hi) => {
                let a = self.tm.fc(lo.to_f64().to_bits());
                let b = self.tm.fc(hi.to_f64().to_bits());
                let a = self.tm.mk(T::FLe(a, t));
                let b = self.tm.mk(T::FLt(t, b));
                let pc = Rc::make_mut(&mut st.pc);
                pc.push(a);
                pc.push(b);
            }
            _ => {}
        }
        t
    }
    fn add_var(&mut self, st: &mut State, id: u32, v: MV) {
        Rc::make_mut(&mut st.vars).push(id);
        if let Some(m) = &mut st.model {
            Rc::make_mut(m).push(v);
        }
        self.cur_model_id = std::ptr::null();
    }
    /// a choice among n alternatives; all are explored
    pub fn choice(&mut self, st: &mut State, n: u32) -> R<u32> {
        if n == 0 {
            return Err(Stop::Assume);
        }
        if let Some(v) = st.pending.take() {
            Rc::make_mut(&mut st.trace).push(Item::Choice(n, v));
            return Ok(v);
        }
        if let Some(r) = self.replay_next('c') {
            let v = (r as u32).min(n - 1);
            Rc::make_mut(&mut st.trace).push(Item::Choice(n, v));
            return Ok(v);
        }
        for v in (1..n).rev() {
            let mut o = st.clone();
            o.id = self.next_id;
            self.next_id += 1;
            o.forks += 1;
            o.pending = Some(v);
            self.work.push(o);
            self.forks += 1;
        }
        Rc::make_mut(&mut st.trace).push(Item::Choice(n, 0));
        Ok(0)
    }
    pub fn replay_next(&mut self, _k: char) -> Option<u128> {
        match &self.cfg.replay {
            None => None,
            Some(v) => {
                let r = v.get(self.replay_pos).map(|x| x.1).unwrap_or(0);
                self.replay_pos += 1;
                Some(r)
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn obj<'s>(&mut self, st: &'s mut State, id: u32) -> R<&'s Rc<Obj>> {
        if st.mem.get(id).is_none() {
            self.materialize(st, id)?;
        }
        Ok(st.mem.get(id).unwrap())
    }
    fn materialize(&mut self, st: &mut State, id: u32) -> R<()> {
        if id == 0 || id as usize > self.m.syms.len() {
            return Err(Stop::MemErr(format!("access to dead or null object {}", id)));
        }
        let o = self.global_obj(id - 1)?;
        st.mem.set(id, Some(o));
        Ok(())
    }
    pub fn global_obj(&mut self, sym: u32) -> R<Rc<Obj>> {
        let id = sym + 1;
        if self.ginit[id as usize].is_none() {
            let o = match &self.m.syms[sym as usize].kind {
                SymKind::Global { constant, .. } => {
                    let (ty, v, _) = self.m.global_init(sym, &self.m);
                    let mut o = Obj::new(ty.size() as usize, if *constant { Kind::Const } else { Kind::Global });
                    write_const(&mut o.data, 0, &ty, &v);
                    o
                }
                _ => return Err(Stop::MemErr(format!("data access to symbol {}", self.m.syms[sym as usize].name))),
            };
            self.ginit[id as usize] = Some(Rc::new(o));
        }
        Ok(self.ginit[id as usize].clone().unwrap())
    }
    fn chk(&mut self, st: &mut State, a: u64, n: u64) -> R<(u32, usize)> {
        let (id, o) = (oid(a), off(a));
        let ob = self.obj(st, id)?;
        if o as u64 + n > ob.data.len() as u64 {
            return Err(Stop::MemErr(format!("out of bounds access: object {} size {} offset {} len {}", id, ob.data.len(), o, n)));
        }
        Ok((id, o as usize))
    }
    pub fn load_scalar(&mut self, st: &mut State, a: u64, n: u64) -> R<Val> {
        let (id, o) = self.chk(st, a, n)?;
        let ob = st.mem.get(id).unwrap();
        if ob.sym.is_empty() || !ob.has_sym(o as u32, n as u32) {
            let mut x = 0u128;
            for (i, b) in ob.data[o..o + n as usize].iter().enumerate() {
                x |= (*b as u128) << (8 * i);
            }
            return Ok(Val::C(x));
        }
        let i = ob.first_sym(o as u32);
        let e = ob.sym[i];
        if e.0 == o as u32 && e.1 as u64 == n {
            return Ok(Val::T(e.2));
        }
        // mixed bytes
        let ob = ob.clone();
        let mut res: Option<TId> = None;
        let mut p = o as u32;
        let end = o as u32 + n as u32;
        let mut i = i;
        while p < end {
            let part;
            if i < ob.sym.len() && ob.sym[i].0 <= p {
                let e = ob.sym[i];
                let bv = self.as_bv(e.2, e.1 as u32 * 8)?;
                let lo = (p - e.0) * 8;
                let stop = (e.0 + e.1 as u32).min(end);
                part = self.tm.extract((stop - e.0) * 8 - 1, lo, bv);
                p = stop;
                i += 1;
            } else {
                part = self.tm.bvc(8, ob.data[p as usize] as u128);
                p += 1;
            }
            res = Some(match res {
                None => part,
                Some(r) => self.tm.concat(part, r),
            });
        }
        Ok(self.norm(res.unwrap()))
    }
    pub fn store_scalar(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let (id, o) = self.chk(st, a, n)?;
        {
            let ob = st.mem.get(id).unwrap();
            if ob.kind == Kind::Const {
                return Err(Stop::MemErr("write to constant".into()));
            }
            // split partially overwritten entries
            if !ob.sym.is_empty() && ob.has_sym(o as u32, n as u32) {
                self.clear_sym(st, id, o as u32, n as u32)?;
            }
        }
        let ob = st.mem.get_mut(id).unwrap();
        match v {
            Val::C(x) => {
                for i in 0..n as usize {
                    ob.data[o + i] = (*x >> (8 * i)) as u8;
                }
            }
            Val::T(t) => {
                let t = *t;
                let t = if self.tm.sort(t) == Sort::Bool {
                    let r = self.tm.bool_to_bv(n as u32 * 8, t);
                    r
                } else if let Sort::Bv(w) = self.tm.sort(t) {
                    if w < n as u32 * 8 {
                        self.tm.zext(n as u32 * 8, t)
                    } else {
                        t
                    }
                } else {
                    t
                };
                let i = ob.first_sym(o as u32);
                ob.sym.insert(i, (o as u32, n as u8, t));
            }
            _ => return unsup("store aggregate as scalar"),
        }
        Ok(())
    }
    fn clear_sym(&mut self, st: &mut State, id: u32, o: u32, n: u32) -> R<()> {
        let ob = st.mem.get(id).unwrap().clone();
        let mut keep: Vec<(u32, u8, TId)> = Vec::new();
        for e in ob.sym.iter() {
            let (s, t) = (e.0, e.0 + e.1 as u32);
            if t <= o || s >= o + n {
                keep.push(*e);
                continue;
            }
            if s < o {
                let bv = self.as_bv(e.2, e.1 as u32 * 8)?;
                let p = self.tm.extract((o - s) * 8 - 1, 0, bv);
                keep.push((s, (o - s) as u8, p));
            }
            if t > o + n {
                let bv = self.as_bv(e.2, e.1 as u32 * 8)?;
                let p = self.tm.extract(e.1 as u32 * 8 - 1, (o + n - s) * 8, bv);
                keep.push((o + n, (t - o - n) as u8, p));
            }
        }
        keep.sort();
        st.mem.get_mut(id).unwrap().sym = keep;
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(1) => {
                let v = self.load_scalar(st, a, 1)?;
                Ok(match v {
                    Val::C(x) => Val::C(x & 1),
                    Val::T(t) => {
                        let b = self.as_bool(t);
                        self.norm(b)
                    }
                    v => v,
                })
            }
            Ty::Int(b) => {
                let n = (*b as u64 + 7) / 8;
                let v = self.load_scalar(st, a, n)?;
                if *b as u64 != n * 8 {
                    return match v {
                        Val::C(x) => Ok(Val::C(x & mask(*b))),
                        Val::T(t) => {
                            let e = self.tm.extract(*b - 1, 0, t);
                            Ok(self.norm(e))
                        }
                        v => Ok(v),
                    };
                }
                Ok(v)
            }
            Ty::F32 => self.load_scalar(st, a, 4),
            Ty::F64 => {
                let v = self.load_scalar(st, a, 8)?;
                Ok(self.as_float(v))
            }
            Ty::Ptr => self.load_scalar(st, a, 8),
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                let s = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, a + i * s, t)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, a + ty.field_off(i), t)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => unsup(format!("load {:?}", ty)),
        }
    }
    fn as_float(&mut self, v: Val) -> Val {
        if let Val::T(t) = v {
            if let Sort::Bv(64) = self.tm.sort(t) {
                let r = match self.tm.get(t).clone() {
                    T::FBits(f) => f,
                    _ => self.tm.mk(T::FFromBits(t)),
                };
                return Val::T(r);
            }
        }
        v
    }
    pub fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(b) => self.store_scalar(st, a, (*b as u64 + 7) / 8, v),
            Ty::F32 => self.store_scalar(st, a, 4, v),
            Ty::F64 | Ty::Ptr => self.store_scalar(st, a, 8, v),
            Ty::Arr(_, t) | Ty::Vector(_, t) => {
                let s = t.size();
                if let Val::A(x) = v {
                    if t.bits_opt() == Some(1) {
                        let p = self.pack(v, ty)?;
                        return self.store_scalar(st, a, ty.size(), &p);
                    }
                    for (i, e) in x.iter().enumerate() {
                        self.store(st, a + i as u64 * s, t, e)?;
                    }
                    Ok(())
                } else {
                    unsup("store array")
                }
            }
            Ty::Struct(f, _) => {
                if let Val::A(x) = v {
                    for (i, t) in f.iter().enumerate() {
                        self.store(st, a + ty.field_off(i), t, &x[i])?;
                    }
                    Ok(())
                } else {
                    unsup("store struct")
                }
            }
            _ => unsup(format!("store {:?}", ty)),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (sid, so) = self.chk(st, s, n)?;
        let (did, do_) = self.chk(st, d, n)?;
        let sob = st.mem.get(sid).unwrap().clone();
        {
            let dob = st.mem.get(did).unwrap();
            if dob.kind == Kind::Const {
                return Err(Stop::MemErr("memcpy to constant".into()));
            }
            if !dob.sym.is_empty() && dob.has_sym(do_ as u32, n as u32) {
                self.clear_sym(st, did, do_ as u32, n as u32)?;
            }
        }
        let mut moved: Vec<(u32, u8, TId)> = vec![];
        if !sob.sym.is_empty() {
            let end = so as u32 + n as u32;
            for e in sob.sym.iter() {
                let (a, b) = (e.0, e.0 + e.1 as u32);
                if b <= so as u32 || a >= end {
                    continue;
                }
                let (x, y) = (a.max(so as u32), b.min(end));
                let t = if x == a && y == b {
                    e.2
                } else {
                    let bv = self.as_bv(e.2, e.1 as u32 * 8)?;
                    self.tm.extract((y - a) * 8 - 1, (x - a) * 8, bv)
                };
                moved.push((x - so as u32 + do_ as u32, (y - x) as u8, t));
            }
        }
        let dob = st.mem.get_mut(did).unwrap();
        dob.data[do_..do_ + n as usize].copy_from_slice(&sob.data[so..so + n as usize]);
        if !moved.is_empty() {
            dob.sym.extend(moved);
            dob.sym.sort();
        }
        Ok(())
    }
    pub fn bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, o) = self.chk(st, a, n)?;
        let ob = st.mem.get(id).unwrap();
        if ob.has_sym(o as u32, n as u32) {
            return unsup("symbolic bytes where concrete ones are needed");
        }
        Ok(ob.data[o..o + n as usize].to_vec())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, o) = self.chk(st, a, b.len() as u64)?;
        self.clear_sym(st, id, o as u32, b.len() as u32)?;
        let ob = st.mem.get_mut(id).unwrap();
        ob.data[o..o + b.len()].copy_from_slice(b);
        Ok(())
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let (id, o) = self.chk(st, a, 1)?;
        let ob = st.mem.get(id).unwrap();
        let e = ob.data[o..].iter().position(|x| *x == 0);
        match e {
            Some(e) => Ok(ob.data[o..o + e].to_vec()),
            None => Err(Stop::MemErr("unterminated string".into())),
        }
    }

    // ------------------------------------------------------------ vectors
    pub fn pack(&mut self, v: &Val, ty: &Ty) -> R<Val> {
        match (v, ty) {
            (Val::A(x), Ty::Vector(_, t)) => {
                let w = t.bits();
                if x.iter().all(|e| e.is_c()) {
                    let mut r = 0u128;
                    for (i, e) in x.iter().enumerate() {
                        r |= (e.c() & mask(w)) << (w as usize * i);
                    }
                    return Ok(Val::C(r));
                }
                let mut res: Option<TId> = None;
                for e in x.iter() {
                    let b = if w == 1 {
                        let b = self.boolt(e);
                        self.tm.bool_to_bv(1, b)
                    } else {
                        self.bvt(e, w)?
                    };
                    res = Some(match res {
                        None => b,
                        Some(r) => self.tm.concat(b, r),
                    });
                }
                Ok(self.norm(res.unwrap()))
            }
            _ => Ok(v.clone()),
        }
    }
    fn unpack(&mut self, v: Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vector(n, t) => {
                let w = t.bits();
                let mut r = vec![];
                for i in 0..*n as u32 {
                    r.push(match &v {
                        Val::C(x) => Val::C((x >> (w * i)) & mask(w)),
                        Val::T(t) => {
                            let tw = w * *n as u32;
                            let b = self.as_bv(*t, tw)?;
                            let e = self.tm.extract(w * (i + 1) - 1, w * i, b);
                            if w == 1 {
                                let b = self.as_bool(e);
                                self.norm(b)
                            } else {
                                self.norm(e)
                            }
                        }
                        _ => return unsup("unpack"),
                    });
                }
                Ok(Val::A(r.into()))
            }
            Ty::F64 => Ok(self.as_float(v)),
            _ => Ok(v),
        }
    }

    // ------------------------------------------------------------ floats
    pub fn is_real(&self, v: &Val) -> bool {
        matches!(v, Val::T(t) if self.tm.sort(*t) == Sort::Real)
    }
    pub fn realt(&mut self, v: &Val) -> R<TId> {
        match v {
            Val::C(x) => match Q::from_f64(f64::from_bits(*x as u64)) {
                Some(q) => Ok(self.tm.lin_c(q)),
                // The double nearest to a short decimal, up to half an ulp: absorbed by the error
                // model, whose error is twice the unit roundoff.
                None if self.cfg.rounding && short_decimal(f64::from_bits(*x as u64)).is_some() => {
                    Ok(self.tm.lin_c(short_decimal(f64::from_bits(*x as u64)).unwrap()))
                }
                None => unsup(format!("constant {} outside the exact range", f64::from_bits(*x as u64))),
            },
            Val::T(t) if self.tm.sort(*t) == Sort::Real => Ok(*t),
            _ => unsup("mixed float kinds"),
        }
    }
    fn fpt(&mut self, v: &Val) -> R<TId> {
        match v {
            Val::C(x) => Ok(self.tm.fc(*x as u64)),
            Val::T(t) => match self.tm.sort(*t) {
                Sort::Fp => Ok(*t),
                Sort::Bv(64) => Ok(self.tm.mk(T::FFromBits(*t))),
                _ => unsup("mixed float kinds"),
            },
            _ => unsup("float of aggregate"),
        }
    }
    /// the result of an arithmetic operation: exact, or rounded with the standard error model
    fn round(&mut self, st: &mut State, l: TId, single: bool) -> R<Val> {
        if self.tm.lin_const(l).is_some() {
            let v = self.norm(l);
            if let Val::C(x) = v {
                return Ok(if single { Val::C((f64::from_bits(x as u64) as f32).to_bits() as u128) } else { v });
            }
        }
        if self.cfg.track_errors {
            return match self.tm.with_error(l, single) {
                Some(r) => Ok(Val::T(r)),
                None => unsup("error bound of a value that may be negative"),
            };
        }
        if self.tm.exact(l, if single { 24 } else { 53 }) {
            return Ok(Val::T(l));
        }
        let (lo, hi, _) = self.tm.bounds(l);
        let m = lo.abs().max(hi.abs());
        if single || !self.cfg.rounding {
            return self.round_coarse(st, l, single, lo, m);
        }
        let key = (0usize, 9u8, lo, hi, 0u32, l);
        let u = Q::new(1, 1i128 << 52);
        // bounds of the result, rounded outwards to a whole number
        let m = Q::int(m.n / m.d + 1 + (m.n / m.d >> 20));
        let id = match self.var_cache.get(&key) {
            Some(i) => *i,
            None => {
                let dlo = if lo.n >= 0 { Q::ZERO } else { m.neg() };
                let (i, _) = self.tm.new_var(VarInfo { sort: Sort::Real, lo: dlo, hi: m, int: false, derived: true });
                self.var_cache.insert(key, i);
                i
            }
        };
        let r = self.tm.var_terms[id as usize];
        if st.vars.contains(&id) {
            return Ok(Val::T(r));
        }
        let v = if self.load_model(st) { self.evq(l) } else { None };
        match v {
            Some(q) => self.add_var(st, id, MV::Q(q)),
            None => {
                st.model = None;
                Rc::make_mut(&mut st.vars).push(id);
            }
        }
        // |r - l| <= u |l|, with u = 2^-52 (twice the unit roundoff)
        let d = self.tm.lin_add(r, l, Q::int(-1));
        let nd = self.tm.lin_neg(d);
        let mk = |s: &mut Self, sg: Q| {
            let a = s.tm.lin_add(d, l, u.mul(sg).neg());
            let b = s.tm.lin_add(nd, l, u.mul(sg).neg());
            let a = s.tm.mk(T::LinLe(a));
            let b = s.tm.mk(T::LinLe(b));
            s.tm.and(a, b)
        };
        let c = if lo.n >= 0 {
            mk(self, Q::ONE)
        } else if hi.n <= 0 {
            mk(self, Q::int(-1))
        } else {
            let p = mk(self, Q::ONE);
            let n = mk(self, Q::int(-1));
            self.tm.or(p, n)
        };
        Rc::make_mut(&mut st.pc).push(c);
        Ok(Val::T(r))
    }
    /// An inexact result: any value within a unit in the last place of the largest possible result.
    /// The code of walky does not get here within the bounds of the checks; modified code may, and
    /// what the solver finds for it counts only if the native replay confirms it.
    fn round_coarse(&mut self, st: &mut State, l: TId, single: bool, lo: Q, m: Q) -> R<Val> {
        if m.n > 1i128 << 100 || m.d > 1i128 << 100 {
            return unsup(format!("inexact floating-point result {}", self.tm.show(l)));
        }
        // 2^e is more than the largest magnitude
        let mut e = (128 - m.n.leading_zeros() as i32) - (127 - m.d.leading_zeros() as i32);
        e -= if single { 24 } else { 53 };
        if e < -110 || e > 100 {
            return unsup(format!("inexact floating-point result {}", self.tm.show(l)));
        }
        let err = if e < 0 { Q::new(1, 1 << -e) } else { Q::int(1 << e) };
        let key = (single as usize, 10u8, m, lo, 0u32, l);
        let id = match self.var_cache.get(&key) {
            Some(i) => *i,
            None => {
                let (i, _) = self.tm.new_var(VarInfo { sort: Sort::Real, lo: err.neg(), hi: err, int: false, derived: true });
                self.var_cache.insert(key, i);
                i
            }
        };
        let d = self.tm.var_terms[id as usize];
        if !st.vars.contains(&id) {
            if self.load_model(st) {
                self.add_var(st, id, MV::Q(Q::ZERO));
            } else {
                st.model = None;
                Rc::make_mut(&mut st.vars).push(id);
            }
        }
        Ok(Val::T(self.tm.lin_add(l, d, Q::ONE)))
    }
    fn fbin(&mut self, st: &mut State, op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *ty == Ty::F32 {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match op {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(Val::C(r.to_bits() as u128));
            }
            let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
            let r = match op {
                Bin::FAdd => x + y,
                Bin::FSub => x - y,
                Bin::FMul => x * y,
                Bin::FDiv => x / y,
                _ => x % y,
            };
            return Ok(Val::C(r.to_bits() as u128));
        }
        let single = *ty == Ty::F32;
        let (wa, wb) = (wide(ty, a), wide(ty, b));
        let (a, b) = (&wa, &wb);
        if single && !self.is_real(a) && !self.is_real(b) {
            return unsup("symbolic f32");
        }
        if self.is_real(a) || self.is_real(b) {
            // special values first
            let sp = |v: &Val| match v {
                Val::C(x) => {
                    let f = f64::from_bits(*x as u64);
                    if f.is_finite() {
                        None
                    } else {
                        Some(f)
                    }
                }
                _ => None,
            };
            if sp(a).is_some() || sp(b).is_some() {
                let fa = sp(a);
                let fb = sp(b);
                let r = match op {
                    Bin::FAdd => fa.or(fb).unwrap(),
                    Bin::FSub => {
                        if let Some(x) = fa {
                            x
                        } else {
                            -fb.unwrap()
                        }
                    }
                    Bin::FDiv if fb.map_or(false, |x| x.is_infinite()) => 0.0,
                    _ => {
                        if fa.or(fb).unwrap().is_nan() {
                            f64::NAN
                        } else {
                            // inf * sym: needs the sign
                            let s = if fa.is_some() { b } else { a };
                            let l = self.realt(s)?;
                            let z = self.tm.lin_eq0(l);
                            if self.decide(st, z)? {
                                f64::NAN
                            } else {
                                let neg = self.tm.lin_lt0(l);
                                let k = fa.or(fb).unwrap();
                                if self.decide(st, neg)? {
                                    -k
                                } else {
                                    k
                                }
                            }
                        }
                    }
                };
                return Ok(Val::C(if single { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }));
            }
            let (x, y) = (self.realt(a)?, self.realt(b)?);
            let l = match op {
                Bin::FAdd => self.tm.lin_add(x, y, Q::ONE),
                Bin::FSub => self.tm.lin_add(x, y, Q::int(-1)),
                Bin::FMul => {
                    if let Some(k) = self.tm.lin_const(x) {
                        self.tm.lin_scale(y, k)
                    } else if let Some(k) = self.tm.lin_const(y) {
                        self.tm.lin_scale(x, k)
                    } else {
                        return unsup("product of two symbolic reals");
                    }
                }
                Bin::FDiv => {
                    if let Some(k) = self.tm.lin_const(y) {
                        if k.n == 0 {
                            return unsup("division by zero");
                        }
                        self.tm.lin_scale(x, k.inv())
                    } else {
                        return unsup("division by a symbolic real");
                    }
                }
                _ => return unsup("frem"),
            };
            return self.round(st, l, single);
        }
        let (x, y) = (self.fpt(a)?, self.fpt(b)?);
        let o = match op {
            Bin::FAdd => FOp::Add,
            Bin::FSub => FOp::Sub,
            Bin::FMul => FOp::Mul,
            Bin::FDiv => FOp::Div,
            _ => return unsup("frem"),
        };
        let r = self.tm.fop(o, x, y);
        Ok(self.norm(r))
    }
    pub fn fcmp(&mut self, p: FPred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        use FPred::*;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if *ty == Ty::F32 { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) } else { (f64::from_bits(*x as u64), f64::from_bits(*y as u64)) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                False => false,
                True => true,
                Oeq => x == y,
                Ogt => x > y,
                Oge => x >= y,
                Olt => x < y,
                Ole => x <= y,
                One => !un && x != y,
                Ord => !un,
                Uno => un,
                Ueq => un || x == y,
                Ugt => un || x > y,
                Uge => un || x >= y,
                Ult => un || x < y,
                Ule => un || x <= y,
                Une => un || x != y,
            };
            return Ok(Val::C(r as u128));
        }
        let (wa, wb) = (wide(ty, a), wide(ty, b));
        let (a, b, ty) = (&wa, &wb, &Ty::F64);
        if self.is_real(a) || self.is_real(b) {
            for (v, left) in [(a, true), (b, false)] {
                if let Val::C(x) = v {
                    let f = f64::from_bits(*x as u64);
                    if Q::from_f64(f).is_none() {
                        // NaN, infinity or a magnitude outside every symbolic range: the
                        // comparison does not depend on the symbolic operand
                        let l = self.realt(if left { b } else { a })?;
                        let (lo, hi, _) = self.tm.bounds(l);
                        let m = lo.abs().max(hi.abs()).to_f64() * 1.01;
                        if !(f.is_nan() || f.abs() > m || (f.abs() < 1e-15 && false)) {
                            // tiny constants (eps-like): treat conservatively
                            return unsup(format!("comparison with {}", f));
                        }
                        let o = 0.0f64;
                        let r = if left { self.fcmp(p, ty, v, &Val::C(o.to_bits() as u128))? } else { self.fcmp(p, ty, &Val::C(o.to_bits() as u128), v)? };
                        return Ok(r);
                    }
                }
            }
            let (x, y) = (self.realt(a)?, self.realt(b)?);
            let d = self.tm.lin_add(x, y, Q::int(-1));
            let nd = self.tm.lin_neg(d);
            let r = match p {
                False | Uno => FALSE,
                True | Ord => TRUE,
                Oeq | Ueq => self.tm.lin_eq0(d),
                One | Une => {
                    let e = self.tm.lin_eq0(d);
                    self.tm.not(e)
                }
                Olt | Ult => self.tm.lin_lt0(d),
                Ole | Ule => self.tm.lin_le0(d),
                Ogt | Ugt => self.tm.lin_lt0(nd),
                Oge | Uge => self.tm.lin_le0(nd),
            };
            return Ok(self.norm(r));
        }
        let (x, y) = (self.fpt(a)?, self.fpt(b)?);
        let un = |s: &mut Self| {
            let p = s.tm.fisnan(x);
            let q = s.tm.fisnan(y);
            s.tm.or(p, q)
        };
        let r = match p {
            False => FALSE,
            True => TRUE,
            Oeq => self.tm.feq(x, y),
            Olt => self.tm.flt(x, y),
            Ole => self.tm.fle(x, y),
            Ogt => self.tm.flt(y, x),
            Oge => self.tm.fle(y, x),
            Ult => {
                let t = self.tm.fle(y, x);
                self.tm.not(t)
            }
            Ule => {
                let t = self.tm.flt(y, x);
                self.tm.not(t)
            }
            Ugt => {
                let t = self.tm.fle(x, y);
                self.tm.not(t)
            }
            Uge => {
                let t = self.tm.flt(x, y);
                self.tm.not(t)
            }
            Une => {
                let t = self.tm.feq(x, y);
                self.tm.not(t)
            }
            Uno => un(self),
            Ord => {
                let t = un(self);
                self.tm.not(t)
            }
            One => {
                let u = un(self);
                let e = self.tm.feq(x, y);
                let o = self.tm.or(u, e);
                self.tm.not(o)
            }
            Ueq => {
                let u = un(self);
                let e = self.tm.feq(x, y);
                self.tm.or(u, e)
            }
        };
        Ok(self.norm(r))
    }
    /// unary float functions
    pub fn fun(&mut self, st: &mut State, op: FOp, a: &Val) -> R<Val> {
        match a {
            Val::C(x) => {
                let f = f64::from_bits(*x as u64);
                let r = match op {
                    FOp::Neg => -f,
                    FOp::Abs => f.abs(),
                    FOp::Sqrt => f.sqrt(),
                    _ => return unsup("fun"),
                };
                Ok(Val::C(r.to_bits() as u128))
            }
            Val::T(t) if self.tm.sort(*t) == Sort::Real => match op {
                FOp::Neg => {
                    let r = self.tm.lin_neg(*t);
                    Ok(self.norm(r))
                }
                FOp::Abs => {
                    let c = self.tm.lin_lt0(*t);
                    let n = self.tm.lin_neg(*t);
                    if self.decide(st, c)? {
                        Ok(Val::T(n))
                    } else {
                        Ok(Val::T(*t))
                    }
                }
                _ => unsup("sqrt of a symbolic real"),
            },
            _ => {
                let x = self.fpt(a)?;
                let r = self.tm.fop(op, x, x);
                Ok(self.norm(r))
            }
        }
    }

    // ------------------------------------------------------------ integer ops
    pub fn ibin(&mut self, st: &mut State, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match int_bin(op, w, *x, *y) {
                Some(r) => Ok(Val::C(r)),
                None => Err(Stop::MemErr("integer division by zero".into())),
            };
        }
        // integer views of floats
        if self.is_real(a) || self.is_real(b) {
            return self.real_as_int(st, op, a, b);
        }
        if w == 1 {
            let (x, y) = (self.boolt(a), self.boolt(b));
            let r = match op {
                Bin::And | Bin::Mul => self.tm.and(x, y),
                Bin::Or => self.tm.or(x, y),
                Bin::Xor | Bin::Add | Bin::Sub => {
                    let e = self.tm.iff(x, y);
                    self.tm.not(e)
                }
                _ => return unsup("i1 op"),
            };
            return Ok(self.norm(r));
        }
        let (x, y) = (self.bvt(a, w)?, self.bvt(b, w)?);
        // sign handling of IEEE doubles through integer masks
        if w == 64 {
            if let (T::FBits(f), Some(k)) = (self.tm.get(x).clone(), self.tm.bv_const(y)) {
                if op == Bin::And && k == 0x7fff_ffff_ffff_ffff {
                    let r = self.tm.fop(FOp::Abs, f, f);
                    return Ok(self.norm(r));
                }
                if op == Bin::Xor && k == 0x8000_0000_0000_0000 {
                    let r = self.tm.fop(FOp::Neg, f, f);
                    return Ok(self.norm(r));
                }
            }
        }
        let r = self.tm.bvbin(op, w, x, y);
        Ok(self.norm(r))
    }
    fn real_as_int(&mut self, st: &mut State, op: Bin, a: &Val, b: &Val) -> R<Val> {
        let (r, k, swapped) = match (a, b) {
            (Val::T(t), Val::C(k)) => (*t, *k, false),
            (Val::C(k), Val::T(t)) => (*t, *k, true),
            (Val::T(x), Val::T(y)) if op == Bin::Xor && x == y => return Ok(Val::C(0)),
            _ => return unsup("integer arithmetic on two symbolic reals"),
        };
        match op {
            Bin::And if k == 0x7fff_ffff_ffff_ffff => self.fun(st, FOp::Abs, &Val::T(r)),
            Bin::Xor if k == 0x8000_0000_0000_0000 => self.fun(st, FOp::Neg, &Val::T(r)),
            Bin::Xor | Bin::Or | Bin::Add if k == 0 => Ok(Val::T(r)),
            Bin::And if k == 0x8000_0000_0000_0000 => {
                let c = self.tm.lin_lt0(r);
                Ok(Val::C(if self.decide(st, c)? { 1u128 << 63 } else { 0 }))
            }
            Bin::AShr if k == 63 && !swapped => {
                let c = self.tm.lin_lt0(r);
                Ok(Val::C(if self.decide(st, c)? { mask(64) } else { 0 }))
            }
            Bin::LShr if k == 63 && !swapped => {
                let c = self.tm.lin_lt0(r);
                Ok(Val::C(if self.decide(st, c)? { 1 } else { 0 }))
            }
            _ => unsup(format!("integer operation {:?} {:x} on a symbolic real", op, k)),
        }
    }
    pub fn icmp(&mut self, st: &mut State, p: IPred, w: u32, a: &Val, b: &Val) -> R<Val> {
        use IPred::*;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x & mask(w), *y & mask(w));
            let (sa, sb) = (sx(x, w), sx(y, w));
            let r = match p {
                Eq => x == y,
                Ne => x != y,
                Ugt => x > y,
                Uge => x >= y,
                Ult => x < y,
                Ule => x <= y,
                Sgt => sa > sb,
                Sge => sa >= sb,
                Slt => sa < sb,
                Sle => sa <= sb,
            };
            return Ok(Val::C(r as u128));
        }
        if self.is_real(a) || self.is_real(b) {
            return self.real_icmp(st, p, a, b);
        }
        if w == 1 {
            let (x, y) = (self.boolt(a), self.boolt(b));
            let nx = self.tm.not(x);
            let ny = self.tm.not(y);
            let r = match p {
                Eq => self.tm.iff(x, y),
                Ne => {
                    let e = self.tm.iff(x, y);
                    self.tm.not(e)
                }
                Ult | Sgt => self.tm.and(nx, y),
                Ugt | Slt => self.tm.and(x, ny),
                Ule | Sge => self.tm.or(nx, y),
                Uge | Sle => self.tm.or(x, ny),
            };
            return Ok(self.norm(r));
        }
        let (x, y) = (self.bvt(a, w)?, self.bvt(b, w)?);
        let r = match p {
            Eq => self.tm.bveq(x, y),
            Ne => {
                let t = self.tm.bveq(x, y);
                self.tm.not(t)
            }
            Ult => self.tm.bvult(x, y),
            Ugt => self.tm.bvult(y, x),
            Uge => {
                let t = self.tm.bvult(x, y);
                self.tm.not(t)
            }
            Ule => {
                let t = self.tm.bvult(y, x);
                self.tm.not(t)
            }
            Slt => self.tm.bvslt(x, y),
            Sgt => self.tm.bvslt(y, x),
            Sge => {
                let t = self.tm.bvslt(x, y);
                self.tm.not(t)
            }
            Sle => {
                let t = self.tm.bvslt(y, x);
                self.tm.not(t)
            }
        };
        Ok(self.norm(r))
    }
    fn real_icmp(&mut self, st: &mut State, p: IPred, a: &Val, b: &Val) -> R<Val> {
        use IPred::*;
        // sign tests
        if let (Val::T(t), Val::C(k)) = (a, b) {
            let neg = self.tm.lin_lt0(*t);
            if *k == 0 && p == Slt {
                return Ok(self.norm(neg));
            }
            if (*k == 0 && p == Sge) || (*k == mask(64) && p == Sgt) {
                let r = self.tm.not(neg);
                return Ok(self.norm(r));
            }
        }
        // equal signs: integer order is the float order (reversed for negatives)
        for v in [a, b] {
            if let Val::C(k) = v {
                let f = f64::from_bits(*k as u64);
                if f.is_nan() {
                    return unsup("integer comparison of a real with NaN bits");
                }
            }
        }
        let fp = match p {
            Eq => FPred::Oeq,
            Ne => FPred::Une,
            Ult | Slt => FPred::Olt,
            Ule | Sle => FPred::Ole,
            Ugt | Sgt => FPred::Ogt,
            Uge | Sge => FPred::Oge,
        };
        if !matches!(p, Eq | Ne) {
            for v in [a, b] {
                let neg = match v {
                    Val::C(k) => (*k >> 63) & 1 == 1,
                    _ => {
                        let l = self.realt(v)?;
                        let c = self.tm.lin_lt0(l);
                        self.decide(st, c)?
                    }
                };
                if neg {
                    return unsup("integer comparison of negative reals");
                }
            }
        }
        self.fcmp(fp, &Ty::F64, a, b)
    }

    // ------------------------------------------------------------ casts
    fn cast(&mut self, st: &mut State, c: Cast, t1: &Ty, a: &Val, t2: &Ty) -> R<Val> {
        if c != Cast::Bitcast {
            if let (Ty::Vector(_, e1), Ty::Vector(_, e2), Val::A(x)) = (t1, t2, a) {
                let mut v = vec![];
                for e in x.iter() {
                    v.push(self.cast(st, c, e1, e, e2)?);
                }
                return Ok(Val::A(v.into()));
            }
        }
        match c {
            Cast::Trunc => {
                let w = t2.bits();
                match a {
                    Val::C(x) => Ok(Val::C(x & mask(w))),
                    Val::T(t) => {
                        let b = self.as_bv(*t, t1.bits())?;
                        let e = self.tm.extract(w - 1, 0, b);
                        if w == 1 {
                            let r = self.as_bool(e);
                            return Ok(self.norm(r));
                        }
                        Ok(self.norm(e))
                    }
                    _ => unsup("trunc"),
                }
            }
            Cast::Zext => match a {
                Val::C(x) => Ok(Val::C(*x)),
                Val::T(t) => {
                    let w = t2.bits();
                    if self.tm.sort(*t) == Sort::Bool {
                        let r = self.tm.bool_to_bv(w, *t);
                        return Ok(Val::T(r));
                    }
                    let b = self.as_bv(*t, t1.bits())?;
                    let r = self.tm.zext(w, b);
                    Ok(self.norm(r))
                }
                _ => unsup("zext"),
            },
            Cast::Sext => match a {
                Val::C(x) => Ok(Val::C(sx(*x, t1.bits()) as u128 & mask(t2.bits()))),
                Val::T(t) => {
                    let w = t2.bits();
                    if self.tm.sort(*t) == Sort::Bool {
                        let x = self.tm.bvc(w, mask(w));
                        let y = self.tm.bvc(w, 0);
                        let r = self.tm.bvite(w, *t, x, y);
                        return Ok(Val::T(r));
                    }
                    let b = self.as_bv(*t, t1.bits())?;
                    let r = self.tm.sext(w, b);
                    Ok(self.norm(r))
                }
                _ => unsup("sext"),
            },
            Cast::PtrToInt | Cast::IntToPtr => {
                let (w1, w2) = (t1.bits(), t2.bits());
                if w1 == w2 {
                    Ok(a.clone())
                } else if w2 < w1 {
                    self.cast(st, Cast::Trunc, &Ty::Int(w1), a, &Ty::Int(w2))
                } else {
                    self.cast(st, Cast::Zext, &Ty::Int(w1), a, &Ty::Int(w2))
                }
            }
            Cast::Bitcast => {
                if matches!(t1, Ty::Vector(..)) || matches!(t2, Ty::Vector(..)) {
                    let p = self.pack(a, t1)?;
                    return self.unpack(p, t2);
                }
                if (*t1 == Ty::F32 || *t2 == Ty::F32) && self.is_real(a) {
                    return unsup("bits of a symbolic f32");
                }
                if *t2 == Ty::F64 {
                    return Ok(self.as_float(a.clone()));
                }
                Ok(a.clone())
            }
            _ => {
                let x = match a {
                    Val::C(x) => *x,
                    _ => {
                        if self.is_real(a) && matches!(c, Cast::FpToUi | Cast::FpToSi) {
                            return unsup("symbolic float to int");
                        }
                        if let (Cast::FpTrunc | Cast::FpExt, true) = (c, self.is_real(a)) {
                            let l = self.realt(a)?;
                            return if matches!(c, Cast::FpTrunc) { self.round(st, l, true) } else { Ok(a.clone()) };
                        }
                        if matches!(c, Cast::UiToFp) {
                            // small integer ite trees become concrete by forking
                            let v = self.concretize(st, a, t1.bits())?;
                            return self.cast(st, c, t1, &Val::C(v), t2);
                        }
                        return unsup(format!("symbolic cast {:?}", c));
                    }
                };
                let getf = |x: u128| if *t1 == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let putf = |f: f64| if *t2 == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                Ok(Val::C(match c {
                    Cast::FpToUi => (getf(x) as u128) & mask(t2.bits()),
                    Cast::FpToSi => (getf(x) as i128) as u128 & mask(t2.bits()),
                    Cast::UiToFp => {
                        if *t2 == Ty::F32 {
                            (x as f32).to_bits() as u128
                        } else {
                            (x as f64).to_bits() as u128
                        }
                    }
                    Cast::SiToFp => {
                        let s = sx(x, t1.bits());
                        if *t2 == Ty::F32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    Cast::FpTrunc | Cast::FpExt => putf(getf(x)),
                    _ => return unsup("cast"),
                }))
            }
        }
    }

    // ------------------------------------------------------------ running
    pub fn initial(&mut self) -> R<State> {
        let id = *self.m.by_name.get(&self.cfg.entry).ok_or_else(|| Stop::Unsupported(format!("no entry {}", self.cfg.entry)))?;
        let f = self.m.func(id, &self.m);
        let mut st = State {
            th: vec![],
            cur: 0,
            mem: Mem::new(self.m.syms.len() as u32 + 1),
            pc: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            trace: Rc::new(vec![]),
            vars: Rc::new(vec![]),
            model: Some(Rc::new(vec![])),
            pending: None,
            allow_panic: false,
            steps: 0,
            out: Rc::new(vec![]),
            err_out: Rc::new(vec![]),
            files: Rc::new(vec![]),
            preempt_left: self.cfg.preempt,
            switch_left: self.cfg.switches,
            sched_done: false,
            notes: Rc::new(vec![]),
            fnotes: Rc::new(vec![]),
            forks: 0,
            id: 0,
            nderived: 0,
        };
        st.th.push(Thread { frames: vec![], block: Block_::Run, tls: Rc::new(HashMap::new()), user: 0 });
        self.push_frame(&mut st, f, vec![], None);
        Ok(st)
    }
    pub fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dst: Option<u32>) {
        self.funcs_used[f.sym as usize] = true;
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate().take(f.nparams) {
            regs[i] = a;
        }
        let c = st.cur;
        st.th[c].frames.push(Rc::new(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst }));
    }

    pub fn run_all(&mut self) {
        match self.initial() {
            Ok(s) => self.work.push(s),
            Err(e) => {
                self.errors.push(format!("{:?}", e));
                return;
            }
        }
        // sharding: expand breadth-first until there are enough states, then keep ours
        let mut shard_done = self.cfg.shard.is_none();
        let mut queue: Vec<State> = vec![];
        let _ = &mut queue;
        if let Some((k, n)) = self.cfg.shard {
            if n > 1 {
                self.expand_shard(k, n);
            }
            shard_done = true;
        }
        let _ = shard_done;
        while let Some(st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.timeout || self.paths >= self.cfg.max_paths {
                self.truncated = true;
                break;
            }
            self.run_state(st);
            if !self.viols.is_empty() && self.cfg.stop_on_violation {
                break;
            }
        }
    }
    /// deterministic split of the exploration: run until the frontier has many states, then
    /// assign frontier states round-robin
    fn expand_shard(&mut self, k: u32, n: u32) {
        let target = (n as usize) * 24;
        let mut frontier: std::collections::VecDeque<State> = self.work.drain(..).collect();
        let mut finished = 0u64;
        let me = k == 0;
        // breadth-first: run one state up to its next fork
        while frontier.len() < target {
            let st = match frontier.pop_front() {
                Some(s) => s,
                None => break,
            };
            self.work.clear();
            let before = (self.paths, self.outcomes.clone(), self.checks.clone(), self.reach.clone());
            let r = self.run_until_fork(st);
            if let Some(cont) = r {
                frontier.push_back(cont);
            } else {
                finished += 1;
                if !me {
                    // counted by shard 0
                    self.paths = before.0;
                    self.outcomes = before.1;
                    self.checks = before.2;
                    self.reach = before.3;
                }
            }
            for s in self.work.drain(..) {
                frontier.push_back(s);
            }
            if !self.viols.is_empty() && self.cfg.stop_on_violation {
                return;
            }
            if finished > 200_000 {
                break;
            }
        }
        let mut mine = vec![];
        for (i, s) in frontier.into_iter().enumerate() {
            if i as u32 % n == k {
                mine.push(s);
            }
        }
        self.work = mine;
    }
    fn run_until_fork(&mut self, mut st: State) -> Option<State> {
        let f0 = self.forks;
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    if self.forks != f0 {
                        return Some(st);
                    }
                }
                Err(Stop::Resched) => match self.resched(&mut st) {
                    Ok(()) => {
                        if self.forks != f0 {
                            return Some(st);
                        }
                    }
                    Err(e) => {
                        self.finish(st, e);
                        return None;
                    }
                },
                Err(e) => {
                    self.finish(st, e);
                    return None;
                }
            }
        }
    }
    fn run_state(&mut self, mut st: State) {
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Resched) => {
                    if let Err(e) = self.resched(&mut st) {
                        self.finish(st, e);
                        return;
                    }
                }
                Err(e) => {
                    self.finish(st, e);
                    return;
                }
            }
            if st.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.timeout {
                self.truncated = true;
                return;
            }
        }
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        st.th[st.cur].frames.iter().rev().take(30).map(|f| format!("{} [b{} i{}]", pretty(&self.m.syms[f.f.sym as usize].name), f.blk, f.ip)).collect()
    }
    fn finish(&mut self, mut st: State, e: Stop) {
        self.paths += 1;
        let kind = match &e {
            Stop::Ok => "ok".to_string(),
            Stop::Assume => "assume".into(),
            Stop::Infeasible => "infeasible".into(),
            Stop::Panic(_) if st.allow_panic => "allowed-panic".into(),
            Stop::Panic(_) => "panic".into(),
            Stop::Violation(_) => "violation".into(),
            Stop::Deadlock => "deadlock".into(),
            Stop::Exit(c) => {
                if *c == 0 {
                    "exit0".into()
                } else if st.allow_panic {
                    "allowed-exit".into()
                } else {
                    "exit".into()
                }
            }
            Stop::Abort(_) => "abort".into(),
            Stop::MemErr(_) => "memory".into(),
            Stop::StepLimit => "steplimit".into(),
            Stop::Unsupported(_) => "unsupported".into(),
            Stop::Resched => "resched".into(),
        };
        if kind == "violation" {
            // already counted as a path end below
        }
        *self.outcomes.entry(kind.clone()).or_insert(0) += 1;
        self.max_vars = self.max_vars.max(st.vars.len());
        if matches!(kind.as_str(), "ok" | "allowed-panic") && self.sample_traces.len() < self.cfg.samples && (self.paths.is_power_of_two() || self.paths % 7 == 3) {
            let before = self.viols.len();
            self.report(&mut st, &kind, String::new(), None);
            if self.viols.len() > before {
                let v = self.viols.pop().unwrap();
                self.sample_traces.push(v);
            }
        }
        match &e {
            Stop::Panic(m) if !st.allow_panic => self.report(&mut st, "panic", m.clone(), None),
            Stop::Deadlock => self.report(&mut st, "deadlock", "all threads blocked".into(), None),
            Stop::Abort(m) => self.report(&mut st, "abort", m.clone(), None),
            Stop::MemErr(m) => self.report(&mut st, "memory", m.clone(), None),
            Stop::StepLimit => self.report(&mut st, "steplimit", format!("more than {} steps on one path", self.cfg.max_steps), None),
            Stop::Exit(c) if *c != 0 && !st.allow_panic => self.report(&mut st, "exit", format!("exit code {}", c), None),
            Stop::Unsupported(m) => {
                let s = format!("unsupported: {} at {:?}", m, self.stack(&st));
                if self.errors.len() < 5 {
                    self.errors.push(s);
                }
                // one input that follows the path so far, for the native replay
                if self.suspects.len() < 24 {
                    let before = self.viols.len();
                    self.report(&mut st, "suspect", m.clone(), None);
                    if self.viols.len() > before {
                        let v = self.viols.pop().unwrap();
                        self.suspects.push(v);
                    }
                }
            }
            _ => {}
        }
    }
    /// build a concrete counterexample for the current path (plus `neg` if given)
    pub fn report(&mut self, st: &mut State, kind: &str, what: String, neg: Option<TId>) {
        let extra: Vec<TId> = neg.into_iter().collect();
        // prefer integer values for the integer-valued variables
        let ints: Vec<TId> = st.vars.iter().filter(|v| self.tm.vars[**v as usize].int && self.tm.vars[**v as usize].sort == Sort::Real).map(|v| self.tm.var_terms[*v as usize]).collect();
        // rounded intermediate results are no inputs
        let want: Vec<u32> = st.vars.iter().copied().filter(|v| !self.tm.vars[*v as usize].derived).collect();
        let mut model = None;
        let mut exact = true;
        if !ints.is_empty() {
            let (r, m) = self.z.check(&self.tm, &st.pc, &extra, &ints, &want);
            if r == Res::Sat {
                model = m;
            }
        }
        if model.is_none() {
            let (r, m) = self.z.check(&self.tm, &st.pc, &extra, &[], &want);
            if r == Res::Sat {
                model = m;
                exact = ints.is_empty();
            } else if r == Res::Unsat {
                return; // cannot happen for a feasible path
            }
        }
        let model = match model {
            Some(m) => m,
            None => match &st.model {
                Some(m) => st.vars.iter().zip(m.iter()).filter(|(v, _)| !self.tm.vars[**v as usize].derived).map(|(_, x)| *x).collect(),
                None => {
                    if kind != "ok" {
                        self.errors.push(format!("{}: {} (no model)", kind, what));
                    }
                    return;
                }
            },
        };
        let trace = self.trace_of(st, &want, &model, exact);
        let stack = self.stack(st);
        // where the engine cannot follow the values, one input says little: take some more
        if kind == "suspect" || want.len() < st.vars.len() {
            for k in 0..3 {
                if self.suspects.len() >= 24 {
                    break;
                }
                if let Some(m) = self.scattered(st, &extra, &ints, &want, k) {
                    let trace = self.trace_of(st, &want, &m, true);
                    self.suspects.push(Viol { what: what.clone(), kind: "suspect".into(), trace, stack: stack.clone(), notes: vec![] });
                }
            }
        }
        self.viols.push(Viol { what, kind: kind.into(), trace, stack, notes: st.notes.iter().cloned().collect() });
    }
    /// a model of the path with inputs as arbitrary as the path allows
    fn scattered(&mut self, st: &mut State, extra: &[TId], ints: &[TId], want: &[u32], k: u64) -> Option<Vec<MV>> {
        let mut extra = extra.to_vec();
        let mut x = (self.paths as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (k + 1).wrapping_mul(0xD1342543DE82EF95);
        let mut last = None;
        for v in want.iter().take(24) {
            let i = &self.tm.vars[*v as usize];
            if i.sort != Sort::Real || !i.int {
                continue;
            }
            let (lo, hi) = (i.lo, i.hi);
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let w = (hi.n / hi.d - lo.n / lo.d).max(0) as u128 + 1;
            let r = lo.n / lo.d + ((x >> 20) as u128 % w) as i128;
            let t = self.tm.var_terms[*v as usize];
            let l = self.tm.lin_of_atom(t);
            let c = self.tm.lin_c(Q::int(r));
            let d = self.tm.lin_add(l, c, Q::int(-1));
            let e = self.tm.lin_eq0(d);
            extra.push(e);
            let (q, m) = self.z.check(&self.tm, &st.pc, &extra, ints, want);
            if q == Res::Sat {
                last = m;
            } else {
                extra.pop();
            }
        }
        last
    }
    fn trace_of(&mut self, st: &State, want: &[u32], model: &[MV], exact: bool) -> Vec<String> {
        let val: HashMap<u32, MV> = want.iter().copied().zip(model.iter().copied()).collect();
        let mut tr = vec![];
        let mut lcm: i128 = 1;
        if !exact {
            for (v, x) in &val {
                if let (MV::Q(q), true) = (x, self.tm.vars[*v as usize].int) {
                    let g = {
                        let (mut a, mut b) = (lcm, q.d);
                        while b != 0 {
                            let t = a % b;
                            a = b;
                            b = t;
                        }
                        a
                    };
                    lcm = (lcm / g).saturating_mul(q.d);
                    if lcm > (1 << 40) {
                        lcm = 1;
                        break;
                    }
                }
            }
        }
        for it in st.trace.iter() {
            match it {
                Item::Choice(n, v) => tr.push(format!("c {} {}", v, n)),
                Item::Var(id) => match (val.get(id), self.tm.vars[*id as usize].sort) {
                    (Some(MV::Q(q)), _) => {
                        let q = q.mul(Q::int(lcm));
                        tr.push(format!("f {} {}", q.to_f64().to_bits(), q.to_f64()))
                    }
                    (Some(MV::B(b)), Sort::Fp) => tr.push(format!("f {} {:e}", b, f64::from_bits(*b as u64))),
                    (Some(MV::B(b)), _) => tr.push(format!("u {}", b)),
                    (None, _) => tr.push("u 0".into()),
                },
            }
        }
        tr
    }

    // ------------------------------------------------------------ scheduling
    pub fn runnable(&mut self, st: &mut State) -> R<Vec<usize>> {
        let mut v = vec![];
        for i in 0..st.th.len() {
            let ok = match st.th[i].block.clone() {
                Block_::Run => true,
                Block_::Done | Block_::Futex(_) => false,
                Block_::WaitNe(a, x) => match self.load_scalar(st, a, 8)? {
                    Val::C(y) => y as u64 != x,
                    _ => return unsup("symbolic wait cell"),
                },
            };
            if ok {
                v.push(i);
            }
        }
        Ok(v)
    }
    /// the current thread cannot continue: switch
    fn resched(&mut self, st: &mut State) -> R<()> {
        let r = self.runnable(st)?;
        if r.is_empty() {
            return Err(Stop::Deadlock);
        }
        let k = if r.len() == 1 || st.switch_left == 0 {
            0
        } else {
            let before = st.switch_left;
            let c = self.choice(st, r.len() as u32)?;
            if c != 0 {
                st.switch_left = before - 1;
            }
            c
        };
        st.cur = r[k as usize];
        st.th[st.cur].block = Block_::Run;
        Ok(())
    }
    /// optional preemption before the current instruction; returns true when switched away
    pub fn sched_point(&mut self, st: &mut State) -> R<bool> {
        if st.th.len() == 1 {
            return Ok(false);
        }
        if st.sched_done {
            st.sched_done = false;
            return Ok(false);
        }
        if st.preempt_left == 0 {
            return Ok(false);
        }
        let r = self.runnable(st)?;
        let others: Vec<usize> = r.into_iter().filter(|x| *x != st.cur).collect();
        if others.is_empty() {
            return Ok(false);
        }
        let c = self.choice(st, others.len() as u32 + 1)?;
        if c == 0 {
            return Ok(false);
        }
        st.preempt_left -= 1;
        st.cur = others[c as usize - 1];
        st.th[st.cur].block = Block_::Run;
        Ok(true)
    }

    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) {
        let c = st.cur;
        let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        f.regs[r as usize] = v;
    }
    #[inline]
    fn adv(&self, st: &mut State, dst: Option<u32>, v: Val) {
        let c = st.cur;
        let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        if let Some(d) = dst {
            f.regs[d as usize] = v;
        }
        f.ip += 1;
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let c = st.cur;
        let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        let from = f.blk;
        let func = f.f.clone();
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (_, ins) in &blk.phis {
                let o = &ins.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push(match o {
                    Opd::K(v) => v.clone(),
                    Opd::R(r) => f.regs[*r as usize].clone(),
                });
            }
            for ((d, _), v) in blk.phis.iter().zip(vals) {
                f.regs[*d as usize] = v;
            }
        }
        f.blk = b;
        f.ip = 0;
    }
    pub fn ret(&mut self, st: &mut State, v: Val) -> R<()> {
        let c = st.cur;
        let fr = st.th[c].frames.pop().unwrap();
        for a in fr.allocas.iter() {
            st.mem.set(*a, None);
        }
        if st.th[c].frames.is_empty() {
            if c == 0 {
                st.th[0].block = Block_::Done;
                return Err(Stop::Ok);
            }
            st.th[c].block = Block_::Done;
            return Err(Stop::Resched);
        }
        // the caller is at the call instruction
        let (is_invoke, normal) = {
            let f = st.th[c].frames.last().unwrap();
            match &f.f.blocks[f.blk as usize].insts[f.ip as usize].op {
                Ins::Invoke(_, _, _, n, _) => (true, *n),
                _ => (false, 0),
            }
        };
        if let Some(d) = fr.dst {
            self.set(st, d, v);
        }
        if is_invoke {
            self.goto(st, normal);
        } else {
            let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
            f.ip += 1;
        }
        Ok(())
    }
    pub fn finish_call(&mut self, st: &mut State, v: Val) {
        let c = st.cur;
        let f = st.th[c].frames.last().unwrap();
        let func = f.f.clone();
        let i = &func.blocks[f.blk as usize].insts[f.ip as usize];
        match &i.op {
            Ins::Invoke(_, _, _, n, _) => {
                if let Some(d) = i.dst {
                    self.set(st, d, v);
                }
                self.goto(st, *n);
            }
            _ => self.adv(st, i.dst, v),
        }
    }
    fn addr_of(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        let v = self.opd(st, o);
        Ok(match v {
            Val::C(x) => x as u64,
            v => self.concretize(st, &v, 64)? as u64,
        })
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.insts += 1;
        if st.steps > self.cfg.max_steps {
            return Err(Stop::StepLimit);
        }
        let c = st.cur;
        if st.th[c].block != Block_::Run {
            return Err(Stop::Resched);
        }
        let fr = st.th[c].frames.last().unwrap();
        let func = fr.f.clone();
        let inst = &func.blocks[fr.blk as usize].insts[fr.ip as usize];
        let dst = inst.dst;
        match &inst.op {
            Ins::Bin(op, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.bin(st, *op, ty, &x, &y)?;
                self.adv(st, dst, r);
            }
            Ins::FNeg(_, a) => {
                let x = self.opd(st, a);
                let r = self.fun(st, FOp::Neg, &x)?;
                self.adv(st, dst, r);
            }
            Ins::ICmp(p, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = match (ty, &x, &y) {
                    (Ty::Vector(_, t), Val::A(p1), Val::A(q1)) => {
                        let mut v = vec![];
                        for (e, f) in p1.iter().zip(q1.iter()) {
                            v.push(self.icmp(st, *p, t.bits(), e, f)?);
                        }
                        Val::A(v.into())
                    }
                    _ => self.icmp(st, *p, ty.bits(), &x, &y)?,
                };
                self.adv(st, dst, r);
            }
            Ins::FCmp(p, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.fcmp(*p, ty, &x, &y)?;
                self.adv(st, dst, r);
            }
            Ins::Select(ty, cnd, a, b, vec) => {
                let cv = self.opd(st, cnd);
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *vec {
                    match (&cv, &x, &y) {
                        (Val::A(c), Val::A(p), Val::A(q)) => {
                            let mut v = vec![];
                            for i in 0..c.len() {
                                v.push(if self.decide_val(st, &c[i])? { p[i].clone() } else { q[i].clone() });
                            }
                            Val::A(v.into())
                        }
                        _ => return unsup("vector select"),
                    }
                } else {
                    match &cv {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        _ if x == y => x,
                        Val::T(t) => self.select(st, *t, ty, x, y)?,
                        _ => return unsup("select"),
                    }
                };
                self.adv(st, dst, r);
            }
            Ins::Load(ty, p, at) => {
                let a = self.addr_of(st, p)?;
                if *at && self.cfg.sched_atomics && self.shared_atomic(st, a) && self.sched_point(st)? {
                    return Ok(());
                }
                let v = self.load(st, a, ty)?;
                self.adv(st, dst, v);
            }
            Ins::Store(ty, v, p, at) => {
                let a = self.addr_of(st, p)?;
                if *at && self.cfg.sched_atomics && self.shared_atomic(st, a) && self.sched_point(st)? {
                    return Ok(());
                }
                let x = self.opd(st, v);
                self.store(st, a, ty, &x)?;
                self.adv(st, dst, Val::C(0));
            }
            Ins::Alloca(n) => {
                let id = st.mem.alloc(*n as usize, Kind::Stack);
                let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
                f.allocas.push(id);
                if let Some(d) = dst {
                    f.regs[d as usize] = Val::C(addr(id, 0) as u128);
                }
                f.ip += 1;
            }
            Ins::Gep(base, o, dynx) => {
                let b = self.opd(st, base);
                let r = if b.is_c() && dynx.iter().all(|d| self.opd(st, &d.0).is_c()) {
                    let mut x = (b.c() as u64).wrapping_add(*o as u64);
                    for (i, w, s) in dynx {
                        let k = sx(self.opd(st, i).c(), *w) as i64;
                        x = x.wrapping_add(k.wrapping_mul(*s) as u64);
                    }
                    Val::C(x as u128)
                } else {
                    let mut t = self.bvt(&b, 64)?;
                    let k = self.tm.bvc(64, *o as u64 as u128);
                    t = self.tm.bvbin(Bin::Add, 64, t, k);
                    for (i, w, s) in dynx {
                        let iv = self.opd(st, i);
                        let it = self.bvt(&iv, *w)?;
                        let it = self.tm.sext(64, it);
                        let sc = self.tm.bvc(64, *s as u64 as u128);
                        let m = self.tm.bvbin(Bin::Mul, 64, it, sc);
                        t = self.tm.bvbin(Bin::Add, 64, t, m);
                    }
                    self.norm(t)
                };
                self.adv(st, dst, r);
            }
            Ins::Cast(k, t1, a, t2) => {
                let x = self.opd(st, a);
                let r = self.cast(st, *k, t1, &x, t2)?;
                self.adv(st, dst, r);
            }
            Ins::Call(cal, args, rty) | Ins::Invoke(cal, args, rty, _, _) => {
                return self.call(st, cal, args, rty, dst);
            }
            Ins::ExtractValue(a, ix) => {
                let mut v = self.opd(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                self.adv(st, dst, v);
            }
            Ins::InsertValue(_, a, v, ix) => {
                let agg = self.opd(st, a);
                let x = self.opd(st, v);
                let r = insert(&agg, &x, ix);
                self.adv(st, dst, r);
            }
            Ins::ExtractElem(a, k) => {
                let v = self.opd(st, a);
                let k = self.opd(st, k).c() as usize;
                let r = match &v {
                    Val::A(x) => x[k].clone(),
                    _ => return unsup("extractelement"),
                };
                self.adv(st, dst, r);
            }
            Ins::InsertElem(a, v, k) => {
                let agg = self.opd(st, a);
                let x = self.opd(st, v);
                let k = self.opd(st, k).c() as usize;
                let r = insert(&agg, &x, &[k]);
                self.adv(st, dst, r);
            }
            Ins::Shuffle(a, b, mk) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = match (&x, &y) {
                    (Val::A(p), Val::A(q)) => {
                        let v: Vec<Val> = mk
                            .iter()
                            .map(|i| {
                                let i = (*i).max(0) as usize;
                                if i < p.len() {
                                    p[i].clone()
                                } else {
                                    q[i - p.len()].clone()
                                }
                            })
                            .collect();
                        Val::A(v.into())
                    }
                    _ => return unsup("shuffle"),
                };
                self.adv(st, dst, r);
            }
            Ins::Freeze(a) => {
                let x = self.opd(st, a);
                self.adv(st, dst, x);
            }
            Ins::CmpXchg(ty, p, old, new) => {
                let a = self.addr_of(st, p)?;
                if self.cfg.sched_atomics && self.shared_atomic(st, a) && self.sched_point(st)? {
                    return Ok(());
                }
                let cur = self.load(st, a, ty)?;
                let (o, n) = (self.opd(st, old), self.opd(st, new));
                let eq = self.icmp(st, IPred::Eq, ty.bits(), &cur, &o)?;
                let b = self.decide_val(st, &eq)?;
                if b {
                    self.store(st, a, ty, &n)?;
                }
                self.adv(st, dst, Val::A(vec![cur, Val::C(b as u128)].into()));
            }
            Ins::AtomicRmw(op, ty, p, v) => {
                let a = self.addr_of(st, p)?;
                if self.cfg.sched_atomics && self.shared_atomic(st, a) && self.sched_point(st)? {
                    return Ok(());
                }
                let cur = self.load(st, a, ty)?;
                let x = self.opd(st, v);
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.ibin(st, Bin::Add, w, &cur, &x)?,
                    "sub" => self.ibin(st, Bin::Sub, w, &cur, &x)?,
                    "and" => self.ibin(st, Bin::And, w, &cur, &x)?,
                    "or" => self.ibin(st, Bin::Or, w, &cur, &x)?,
                    "xor" => self.ibin(st, Bin::Xor, w, &cur, &x)?,
                    "umax" => {
                        let c = self.icmp(st, IPred::Ugt, w, &cur, &x)?;
                        if self.decide_val(st, &c)? {
                            cur.clone()
                        } else {
                            x
                        }
                    }
                    "umin" => {
                        let c = self.icmp(st, IPred::Ult, w, &cur, &x)?;
                        if self.decide_val(st, &c)? {
                            cur.clone()
                        } else {
                            x
                        }
                    }
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.store(st, a, ty, &n)?;
                self.adv(st, dst, cur);
            }
            Ins::Fence => self.adv(st, dst, Val::C(0)),
            Ins::Ret(v) => {
                let x = match v {
                    Some(o) => self.opd(st, o),
                    None => Val::C(0),
                };
                return self.ret(st, x);
            }
            Ins::Br(b) => self.goto(st, *b),
            Ins::CondBr(cnd, a, b) => {
                let v = self.opd(st, cnd);
                let r = self.decide_val(st, &v)?;
                self.goto(st, if r { *a } else { *b });
            }
            Ins::Switch(ty, v, d, cs) => {
                let x = self.opd(st, v);
                let mut t = *d;
                match &x {
                    Val::C(k) => {
                        for (c, b) in cs {
                            if c == k {
                                t = *b;
                                break;
                            }
                        }
                    }
                    _ => {
                        for (c, b) in cs {
                            let e = self.icmp(st, IPred::Eq, ty.bits(), &x, &Val::C(*c))?;
                            if self.decide_val(st, &e)? {
                                t = *b;
                                break;
                            }
                        }
                    }
                }
                self.goto(st, t);
            }
            Ins::Unreachable => return Err(Stop::Abort("unreachable executed".into())),
            Ins::Resume | Ins::LandingPad => return unsup("unwinding"),
            Ins::Unsupported(s) => return unsup(s.clone()),
        }
        Ok(())
    }
    fn shared_atomic(&self, st: &State, a: u64) -> bool {
        st.th.len() > 1 && st.mem.get(oid(a)).map_or(false, |o| o.kind == Kind::Heap)
    }
    fn select(&mut self, st: &mut State, t: TId, ty: &Ty, x: Val, y: Val) -> R<Val> {
        let c = self.as_bool(t);
        if let Some(b) = st.known.get(&c) {
            return Ok(if *b { x } else { y });
        }
        match ty {
            Ty::Int(1) => {
                let (p, q) = (self.boolt(&x), self.boolt(&y));
                let r = self.tm.bite(c, p, q);
                return Ok(self.norm(r));
            }
            Ty::Int(w) if *w <= 8 => {
                if let (Ok(p), Ok(q)) = (self.bvt(&x, *w), self.bvt(&y, *w)) {
                    let r = self.tm.bvite(*w, c, p, q);
                    return Ok(self.norm(r));
                }
            }
            Ty::F64 if self.cfg.merge_select => {
                let fin = |v: &Val| match v {
                    Val::C(x) => Q::from_f64(f64::from_bits(*x as u64)).is_some(),
                    _ => true,
                };
                if (self.is_real(&x) || self.is_real(&y)) && fin(&x) && fin(&y) {
                    let (p, q) = (self.realt(&x)?, self.realt(&y)?);
                    let r = self.tm.rite(c, p, q);
                    return Ok(self.norm(r));
                }
                if let (Ok(p), Ok(q)) = (self.fpt(&x), self.fpt(&y)) {
                    let r = self.tm.fite(c, p, q);
                    return Ok(self.norm(r));
                }
            }
            _ => {}
        }
        Ok(if self.decide(st, c)? { x } else { y })
    }
    pub fn merge_f64(&mut self, st: &mut State, c: TId, x: Val, y: Val) -> R<Val> {
        self.select(st, c, &Ty::F64, x, y)
    }
    pub fn bin(&mut self, st: &mut State, op: Bin, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        match ty {
            Ty::Int(w) => self.ibin(st, op, *w, x, y),
            Ty::F64 | Ty::F32 => self.fbin(st, op, ty, x, y),
            Ty::Vector(_, t) => match (x, y) {
                (Val::A(p), Val::A(q)) => {
                    let mut v = vec![];
                    for (e, f) in p.iter().zip(q.iter()) {
                        v.push(self.bin(st, op, t, e, f)?);
                    }
                    Ok(Val::A(v.into()))
                }
                _ => unsup("vector op"),
            },
            _ => unsup(format!("bin on {:?}", ty)),
        }
    }
    fn call(&mut self, st: &mut State, cal: &Callee, args: &[(Ty, Opd)], rty: &Ty, dst: Option<u32>) -> R<()> {
        let sym = match cal {
            Callee::Sym(s) => *s,
            Callee::Ind(o) => {
                let a = self.addr_of(st, o)?;
                if off(a) != 0 || oid(a) == 0 || oid(a) as usize > self.m.syms.len() {
                    return Err(Stop::MemErr(format!("indirect call to {:x}", a)));
                }
                let mut s = oid(a) - 1;
                while let SymKind::Alias { target } = &self.m.syms[s as usize].kind {
                    s = self.m.by_name[target];
                }
                s
            }
        };
        let h = match self.handlers[sym as usize] {
            Some(h) => h,
            None => {
                let h = crate::models::classify(&self.m.syms[sym as usize]);
                self.handlers[sym as usize] = Some(h);
                h
            }
        };
        match h {
            H::Defined => {
                let f = self.m.func(sym, &self.m);
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.opd(st, &a.1));
                }
                if st.th[st.cur].frames.len() > 2000 {
                    return Err(Stop::Abort("stack overflow (2000 frames)".into()));
                }
                self.push_frame(st, f, av, dst);
                Ok(())
            }
            H::Nop => {
                self.finish_call(st, Val::C(0));
                Ok(())
            }
            H::Text(print) => {
                let av: Vec<Val> = args.iter().map(|a| self.opd(st, &a.1)).collect();
                if print {
                    if self.print_cost(st, &av, dst)? {
                        return Ok(());
                    }
                } else if self.read_cost(st, &av)? {
                    return Ok(());
                }
                let f = self.m.func(sym, &self.m);
                self.push_frame(st, f, av, dst);
                Ok(())
            }
            _ => {
                let av: Vec<(Ty, Val)> = args.iter().map(|a| (a.0.clone(), self.opd(st, &a.1))).collect();
                crate::models::call(self, st, h, sym, &av, rty)
            }
        }
    }
    /// the text that stands for a symbolic cost
    pub fn cost_text(t: TId) -> String {
        format!("{}{:09}", COST_TEXT, t)
    }
    /// `<f64 as Display>::fmt` of a symbolic value: write the text that stands for it
    fn print_cost(&mut self, st: &mut State, a: &[Val], dst: Option<u32>) -> R<bool> {
        let (Val::C(p), Val::C(fm)) = (&a[0], &a[1]) else { return Ok(false) };
        let (p, fm) = (*p as u64, *fm as u64);
        let v = self.load_scalar(st, p, 8)?;
        let t = match v {
            Val::T(t) if self.is_real(&v) || self.tm.sort(t) == Sort::Fp => t,
            _ => return Ok(false),
        };
        // no width, precision or sign may be asked for
        match self.load_scalar(st, fm + 16, 4)? {
            Val::C(o) if o & (1 << 21 | 1 << 27 | 1 << 28) == 0 => {}
            _ => return unsup("formatting of a symbolic cost with options"),
        }
        let w = match self.m.syms.iter().position(|s| s.name.contains("4core3fmt") && s.name.ends_with("9Formatter9write_str") && matches!(s.kind, SymKind::Func { .. })) {
            Some(w) => w as u32,
            None => return unsup("Formatter::write_str not found"),
        };
        let s = Self::cost_text(t);
        let o = addr(st.mem.alloc(s.len(), Kind::Heap), 0);
        self.write_bytes(st, o, s.as_bytes())?;
        let f = self.m.func(w, &self.m);
        self.push_frame(st, f, vec![Val::C(fm as u128), Val::C(o as u128), Val::C(s.len() as u128)], dst);
        Ok(true)
    }
    /// `<f64 as FromStr>::from_str` of the text that stands for a symbolic value
    fn read_cost(&mut self, st: &mut State, a: &[Val]) -> R<bool> {
        let (Val::C(r), Val::C(p), Val::C(n)) = (&a[0], &a[1], &a[2]) else { return Ok(false) };
        let (r, p, n) = (*r as u64, *p as u64, *n as u64);
        if n as usize != COST_TEXT.len() + 9 {
            return Ok(false);
        }
        for i in 0..n {
            if !self.load_scalar(st, p + i, 1)?.is_c() {
                return Ok(false);
            }
        }
        let s = self.bytes(st, p, n)?;
        if !s.starts_with(COST_TEXT.as_bytes()) {
            return Ok(false);
        }
        let t: TId = match std::str::from_utf8(&s[COST_TEXT.len()..]).ok().and_then(|x| x.parse().ok()) {
            Some(t) => t,
            None => return Ok(false),
        };
        if !self.is_real(&Val::T(t)) && self.tm.sort(t) != Sort::Fp {
            return Ok(false);
        }
        self.store_scalar(st, r + 8, 8, &Val::T(t))?;
        self.store_scalar(st, r, 1, &Val::C(0))?;
        self.finish_call(st, Val::C(0));
        Ok(true)
    }
    /// a checked property: cond must hold on every extension of the path
    pub fn check(&mut self, st: &mut State, cond: TId, id: &str) -> R<()> {
        let s = self.checks.entry(id.to_string()).or_default();
        s.reached += 1;
        if cond == TRUE {
            s.trivially += 1;
            return Ok(());
        }
        if let Some(true) = st.known.get(&cond) {
            s.trivially += 1;
            return Ok(());
        }
        let n = self.tm.not(cond);
        if cond == FALSE {
            s.violated += 1;
            self.report(st, "check", id.to_string(), None);
            return Err(Stop::Violation(id.to_string()));
        }
        s.solver += 1;
        let (r, _) = self.z.check(&self.tm, &st.pc, &[n], &[], &[]);
        match r {
            Res::Unsat => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(cond, true);
                k.insert(n, false);
                Ok(())
            }
            Res::Sat => {
                self.checks.get_mut(id).unwrap().violated += 1;
                self.report(st, "check", id.to_string(), Some(n));
                Err(Stop::Violation(id.to_string()))
            }
            Res::Unknown => unsup("solver returned unknown on a check"),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: TId) -> R<()> {
        self.assumes += 1;
        if c == FALSE {
            return Err(Stop::Assume);
        }
        if c == TRUE || st.known.get(&c) == Some(&true) {
            return Ok(());
        }
        if st.known.get(&c) == Some(&false) {
            return Err(Stop::Assume);
        }
        let ok = if self.load_model(st) { self.evb(c) } else { None };
        if ok != Some(true) {
            let (r, m) = self.query(st, &[c]);
            match r {
                Res::Unsat => return Err(Stop::Assume),
                Res::Sat => st.model = m,
                Res::Unknown => return unsup("solver returned unknown on an assumption"),
            }
        }
        self.assume_known(st, c);
        Ok(())
    }
    pub fn used_functions(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for (i, u) in self.funcs_used.iter().enumerate() {
            if *u {
                s.insert(pretty(&self.m.syms[i].name));
            }
        }
        s
    }
}

thread_local! {
    static KEEP: std::cell::RefCell<Option<Rc<Vec<MV>>>> = std::cell::RefCell::new(None);
}

fn insert(agg: &Val, v: &Val, ix: &[usize]) -> Val {
    match agg {
        Val::A(x) => {
            let mut y: Vec<Val> = x.to_vec();
            if ix.len() == 1 {
                y[ix[0]] = v.clone();
            } else {
                y[ix[0]] = insert(&y[ix[0]], v, &ix[1..]);
            }
            Val::A(y.into())
        }
        _ => panic!("insert into scalar"),
    }
}

fn write_const(d: &mut [u8], o: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Arr(_, t), Val::A(x)) | (Ty::Vector(_, t), Val::A(x)) => {
            let s = t.size() as usize;
            for (i, e) in x.iter().enumerate() {
                write_const(d, o + i * s, t, e);
            }
        }
        (Ty::Struct(f, _), Val::A(x)) => {
            for (i, t) in f.iter().enumerate() {
                write_const(d, o + ty.field_off(i) as usize, t, &x[i]);
            }
        }
        (_, Val::C(x)) => {
            let n = ((ty.bits() + 7) / 8) as usize;
            for i in 0..n {
                d[o + i] = (*x >> (8 * i)) as u8;
            }
        }
        _ => panic!("constant {:?} {:?}", ty, v),
    }
}

impl Ty {
    pub fn bits_opt(&self) -> Option<u32> {
        match self {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => Some(self.bits()),
            _ => None,
        }
    }
}

/// readable form of a v0-mangled name: the identifiers in order
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let len: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if len > 0 && k + len <= b.len() && n.is_char_boundary(k + len) {
                let id = &n[k..k + len];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !id.bytes().next().unwrap().is_ascii_digit() {
                    parts.push(id.to_string());
                    i = k + len;
                    continue;
                }
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator or back reference: skip to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    parts.join("::")
}

/// `d * 10^-e` for a double that prints with few digits
fn short_decimal(x: f64) -> Option<Q> {
    let s = format!("{:e}", x);
    let (m, e) = s.split_once('e')?;
    let e: i32 = e.parse().ok()?;
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    if b.len() > 2 || e > 0 || e < -15 {
        return None;
    }
    let n: i128 = format!("{}{}", a, b).parse().ok()?;
    Some(Q::new(n, 10i128.pow((b.len() as i32 - e) as u32)))
}
