//! Hash-consed terms: booleans, bit-vectors, exact linear real forms and IEEE doubles.
use crate::ir::{mask, sx, Bin};
use std::collections::HashMap;
use std::rc::Rc;

pub type TId = u32;

// ------------------------------------------------------------ rationals
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
pub struct Overflow;
impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn add(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q { n: self.n.checked_add(o.n).expect("rational overflow"), d: 1 };
        }
        let g = gcd(self.d, o.d);
        let od = o.d / g;
        let sd = self.d / g;
        let n = self.n.checked_mul(od).and_then(|a| o.n.checked_mul(sd).and_then(|b| a.checked_add(b))).expect("rational overflow");
        Q::new(n, self.d.checked_mul(od).expect("rational overflow"))
    }
    pub fn try_add(self, o: Q) -> Option<Q> {
        if self.d == 1 && o.d == 1 {
            return Some(Q { n: self.n.checked_add(o.n)?, d: 1 });
        }
        let g = gcd(self.d, o.d);
        let (od, sd) = (o.d / g, self.d / g);
        let n = self.n.checked_mul(od)?.checked_add(o.n.checked_mul(sd)?)?;
        Some(Q::new(n, self.d.checked_mul(od)?))
    }
    /// the largest e such that the number is a multiple of 2^e; none for numbers that are no binary fractions
    pub fn grain(self) -> Option<i32> {
        if self.n == 0 {
            return Some(20_000);
        }
        if self.d & (self.d - 1) != 0 {
            return None;
        }
        Some(self.n.trailing_zeros() as i32 - self.d.trailing_zeros() as i32)
    }
    pub fn try_mul(self, o: Q) -> Option<Q> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Some(Q::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?))
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Q) -> Q {
        self.add(o.neg())
    }
    pub fn mul(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q { n: self.n.checked_mul(o.n).expect("rational overflow"), d: 1 };
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Q::new(
            (self.n / g1).checked_mul(o.n / g2).expect("rational overflow"),
            (self.d / g2).checked_mul(o.d / g1).expect("rational overflow"),
        )
    }
    pub fn inv(self) -> Q {
        Q::new(self.d, self.n)
    }
    pub fn lt(self, o: Q) -> bool {
        self.cmp(o) == std::cmp::Ordering::Less
    }
    pub fn le(self, o: Q) -> bool {
        self.cmp(o) != std::cmp::Ordering::Greater
    }
    pub fn cmp(self, o: Q) -> std::cmp::Ordering {
        if self.d == o.d {
            return self.n.cmp(&o.n);
        }
        let a = self.n.checked_mul(o.d).expect("rational overflow");
        let b = o.n.checked_mul(self.d).expect("rational overflow");
        a.cmp(&b)
    }
    pub fn max(self, o: Q) -> Q {
        if self.lt(o) {
            o
        } else {
            self
        }
    }
    pub fn min(self, o: Q) -> Q {
        if self.lt(o) {
            self
        } else {
            o
        }
    }
    pub fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// exact conversion of a finite double; None when out of the supported range
    pub fn from_f64(x: f64) -> Option<Q> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Q::ZERO);
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1u64 << 52) - 1)) as i128 | if e == 0 { 0 } else { 1i128 << 52 };
        let e = if e == 0 { -1074 } else { e - 1075 };
        let m = if x < 0.0 { -m } else { m };
        if e >= 0 {
            if e > 60 {
                return None;
            }
            Some(Q::int(m << e))
        } else {
            let tz = (m.trailing_zeros() as i32).min(-e);
            let m = m >> tz;
            let e = -e - tz;
            if e > 62 {
                return None;
            }
            Some(Q { n: m, d: 1i128 << e })
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LinD {
    pub k: Q,
    pub v: Vec<(TId, Q)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Sqrt,
    Neg,
    Abs,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    True,
    False,
    BVarB(u32),
    Not(TId),
    And(TId, TId),
    Or(TId, TId),
    Iff(TId, TId),
    // real atoms: lin < 0, lin <= 0, lin == 0
    LinLt(TId),
    LinLe(TId),
    LinEq(TId),
    // bit-vectors
    BvC(u32, u128),
    BvVar(u32, u32),
    BvBin(Bin, u32, TId, TId),
    BvIte(u32, TId, TId, TId),
    Zext(u32, TId),
    Sext(u32, TId),
    Extract(u32, u32, TId),
    Concat(TId, TId),
    BvEq(TId, TId),
    BvUlt(TId, TId),
    BvSlt(TId, TId),
    // reals
    RVar(u32),
    RIte(TId, TId, TId),
    Lin(Rc<LinD>),
    /// uninterpreted (hash-consed) non-linear real operation
    RUf(FOp, TId, TId),
    // IEEE double
    FC(u64),
    FVar(u32),
    FIte(TId, TId, TId),
    FOp2(FOp, TId, TId),
    FEq(TId, TId),
    FLt(TId, TId),
    FLe(TId, TId),
    FIsNan(TId),
    FBits(TId),
    FFromBits(TId),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Bool,
    Bv(u32),
    Real,
    Fp,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub sort: Sort,
    pub lo: Q,
    pub hi: Q,
    /// must the variable be integer valued (exactness argument)
    pub int: bool,
    pub derived: bool,
}

pub struct Terms {
    pub t: Vec<T>,
    pub map: HashMap<T, TId>,
    pub vars: Vec<VarInfo>,
    pub var_terms: Vec<TId>,
    /// cached real bounds and dyadic exponent
    bnd: HashMap<TId, (Q, Q, Option<i32>)>,
    frng: HashMap<TId, Option<(f64, f64)>>,
    pub exact_limit: bool,
    pub uf_float: bool,
    /// rounding errors of single operations: atom -> magnitude of the operation's result
    pub errs: HashMap<TId, TId>,
    err_of: HashMap<(TId, bool), TId>,
}

pub const TRUE: TId = 0;
pub const FALSE: TId = 1;

impl Terms {
    pub fn new() -> Terms {
        let mut s = Terms { t: vec![], map: HashMap::new(), vars: vec![], var_terms: vec![], bnd: HashMap::new(), frng: HashMap::new(), exact_limit: true, uf_float: false, errs: HashMap::new(), err_of: HashMap::new() };
        s.mk(T::True);
        s.mk(T::False);
        s
    }
    pub fn mk(&mut self, t: T) -> TId {
        if let Some(x) = self.map.get(&t) {
            return *x;
        }
        let id = self.t.len() as TId;
        self.t.push(t.clone());
        self.map.insert(t, id);
        id
    }
    pub fn get(&self, t: TId) -> &T {
        &self.t[t as usize]
    }
    /// variable number `idx` on a path; the info must agree between paths, otherwise a fresh
    /// variable is made for the new shape
    pub fn new_var(&mut self, info: VarInfo) -> (u32, TId) {
        let idx = self.vars.len() as u32;
        let t = match info.sort {
            Sort::Bool => T::BVarB(idx),
            Sort::Bv(w) => T::BvVar(idx, w),
            Sort::Real => T::RVar(idx),
            Sort::Fp => T::FVar(idx),
        };
        let real = matches!(info.sort, Sort::Real);
        self.vars.push(info);
        let a = self.mk(t);
        let r = if real { self.mk(T::Lin(Rc::new(LinD { k: Q::ZERO, v: vec![(a, Q::ONE)] }))) } else { a };
        self.var_terms.push(r);
        (idx, r)
    }
    pub fn sort(&self, t: TId) -> Sort {
        match self.get(t) {
            T::True | T::False | T::BVarB(_) | T::Not(_) | T::And(..) | T::Or(..) | T::Iff(..) | T::LinLt(_) | T::LinLe(_) | T::LinEq(_) | T::BvEq(..) | T::BvUlt(..) | T::BvSlt(..) | T::FEq(..) | T::FLt(..) | T::FLe(..) | T::FIsNan(_) => Sort::Bool,
            T::BvC(w, _) | T::BvVar(_, w) | T::BvBin(_, w, _, _) | T::BvIte(w, ..) | T::Zext(w, _) | T::Sext(w, _) => Sort::Bv(*w),
            T::Extract(h, l, _) => Sort::Bv(h - l + 1),
            T::Concat(a, b) => match (self.sort(*a), self.sort(*b)) {
                (Sort::Bv(x), Sort::Bv(y)) => Sort::Bv(x + y),
                _ => panic!(),
            },
            T::FBits(_) => Sort::Bv(64),
            T::RVar(_) | T::RIte(..) | T::Lin(_) | T::RUf(..) => Sort::Real,
            T::FC(_) | T::FVar(_) | T::FIte(..) | T::FOp2(..) | T::FFromBits(_) => Sort::Fp,
        }
    }

    // ------------------------------------------------------------ booleans
    pub fn b(&self, x: bool) -> TId {
        if x {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn not(&mut self, a: TId) -> TId {
        match self.get(a).clone() {
            T::True => FALSE,
            T::False => TRUE,
            T::Not(x) => x,
            T::LinLt(l) => {
                let n = self.lin_neg(l);
                self.lin_le0(n)
            }
            T::LinLe(l) => {
                let n = self.lin_neg(l);
                self.lin_lt0(n)
            }
            _ => self.mk(T::Not(a)),
        }
    }
    pub fn and(&mut self, a: TId, b: TId) -> TId {
        if a == FALSE || b == FALSE {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        if self.not(a) == b {
            return FALSE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(T::And(a, b))
    }
    pub fn or(&mut self, a: TId, b: TId) -> TId {
        if a == TRUE || b == TRUE {
            return TRUE;
        }
        if a == FALSE || a == b {
            return b;
        }
        if b == FALSE {
            return a;
        }
        if self.not(a) == b {
            return TRUE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(T::Or(a, b))
    }
    pub fn iff(&mut self, a: TId, b: TId) -> TId {
        if a == b {
            return TRUE;
        }
        if a == TRUE {
            return b;
        }
        if b == TRUE {
            return a;
        }
        if a == FALSE {
            return self.not(b);
        }
        if b == FALSE {
            return self.not(a);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(T::Iff(a, b))
    }
    pub fn bite(&mut self, c: TId, a: TId, b: TId) -> TId {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let x = self.and(c, a);
        let nc = self.not(c);
        let y = self.and(nc, b);
        self.or(x, y)
    }

    // ------------------------------------------------------------ linear reals
    pub fn lin_c(&mut self, k: Q) -> TId {
        self.mk(T::Lin(Rc::new(LinD { k, v: vec![] })))
    }
    fn lind(&self, t: TId) -> Rc<LinD> {
        match self.get(t) {
            T::Lin(l) => l.clone(),
            _ => panic!("not linear: {:?}", self.get(t)),
        }
    }
    pub fn lin_of_atom(&mut self, a: TId) -> TId {
        self.mk(T::Lin(Rc::new(LinD { k: Q::ZERO, v: vec![(a, Q::ONE)] })))
    }
    pub fn lin_const(&self, t: TId) -> Option<Q> {
        match self.get(t) {
            T::Lin(l) if l.v.is_empty() => Some(l.k),
            _ => None,
        }
    }
    /// a + c*b
    pub fn lin_add(&mut self, a: TId, b: TId, c: Q) -> TId {
        let x = self.lind(a);
        let y = self.lind(b);
        let mut v = Vec::with_capacity(x.v.len() + y.v.len());
        let (mut i, mut j) = (0, 0);
        while i < x.v.len() || j < y.v.len() {
            if j == y.v.len() || (i < x.v.len() && x.v[i].0 < y.v[j].0) {
                v.push(x.v[i]);
                i += 1;
            } else if i == x.v.len() || y.v[j].0 < x.v[i].0 {
                v.push((y.v[j].0, y.v[j].1.mul(c)));
                j += 1;
            } else {
                let q = x.v[i].1.add(y.v[j].1.mul(c));
                if q.n != 0 {
                    v.push((x.v[i].0, q));
                }
                i += 1;
                j += 1;
            }
        }
        let k = x.k.add(y.k.mul(c));
        self.mk(T::Lin(Rc::new(LinD { k, v })))
    }
    pub fn lin_scale(&mut self, a: TId, c: Q) -> TId {
        let x = self.lind(a);
        if c.n == 0 {
            return self.lin_c(Q::ZERO);
        }
        let v = x.v.iter().map(|(t, q)| (*t, q.mul(c))).collect();
        let k = x.k.mul(c);
        self.mk(T::Lin(Rc::new(LinD { k, v })))
    }
    pub fn lin_neg(&mut self, a: TId) -> TId {
        self.lin_scale(a, Q::int(-1))
    }
    /// bounds, and an exponent e such that every value is a multiple of 2^e
    pub fn bounds(&mut self, t: TId) -> (Q, Q, Option<i32>) {
        if let Some(b) = self.bnd.get(&t) {
            return *b;
        }
        let r = match self.get(t).clone() {
            T::RVar(i) => {
                let v = &self.vars[i as usize];
                (v.lo, v.hi, if v.int { Some(0) } else { None })
            }
            T::RIte(_, a, b) => {
                let x = self.bounds(a);
                let y = self.bounds(b);
                (x.0.min(y.0), x.1.max(y.1), x.2.and_then(|a| y.2.map(|b| a.min(b))))
            }
            T::RUf(..) => (Q::int(-(1 << 60)), Q::int(1 << 60), None),
            T::Lin(l) => {
                let (mut lo, mut hi, mut d) = (l.k, l.k, l.k.grain());
                for (a, q) in l.v.iter() {
                    let b = self.bounds(*a);
                    let (x, y) = (b.0.mul(*q), b.1.mul(*q));
                    lo = lo.add(x.min(y));
                    hi = hi.add(x.max(y));
                    d = match (d, b.2, q.grain()) {
                        (Some(d), Some(x), Some(y)) => Some(d.min(x.saturating_add(y))),
                        _ => None,
                    };
                }
                (lo, hi, d)
            }
            x => panic!("bounds of {:?}", x),
        };
        self.bnd.insert(t, r);
        r
    }
    /// true when every value of the form is exactly representable in binary64
    pub fn exact(&mut self, t: TId, bits: u32) -> bool {
        let (lo, hi, d) = self.bounds(t);
        let Some(e) = d else { return false };
        let m = lo.abs().max(hi.abs());
        match bits as i32 + e {
            e if e >= 126 => m.n == 0 || e > 10_000,
            e if e >= 0 => m.le(Q::int(1 << e)),
            e if e > -126 => m.try_mul(Q::int(1 << -e)).is_some_and(|x| x.le(Q::ONE)),
            _ => m.n == 0,
        }
    }
    /// divide by a positive factor so that syntactically different multiples coincide
    fn lin_norm(&mut self, l: TId, sign: bool) -> TId {
        let x = self.lind(l);
        let lead = x.v[0].1;
        let f = if sign && lead.n < 0 { lead } else { lead.abs() };
        if f == Q::ONE {
            return l;
        }
        self.lin_scale(l, f.inv())
    }
    /// the form without the rounding errors
    pub fn strip(&mut self, l: TId) -> TId {
        if self.errs.is_empty() {
            return l;
        }
        let x = self.lind(l);
        if !x.v.iter().any(|(a, _)| self.errs.contains_key(a)) {
            return l;
        }
        let v = x.v.iter().filter(|(a, _)| !self.errs.contains_key(a)).copied().collect();
        self.mk(T::Lin(Rc::new(LinD { k: x.k, v })))
    }
    /// `l` plus the rounding error of the operation that computed it
    pub fn with_error(&mut self, l: TId, single: bool) -> Option<TId> {
        if let Some(r) = self.err_of.get(&(l, single)) {
            return Some(*r);
        }
        let x = self.lind(l);
        // a single atom is no result of an operation, unless it is shortened
        if !single && (x.v.is_empty() || (x.v.len() == 1 && x.k.n == 0 && x.v[0].1 == Q::ONE)) {
            return Some(l);
        }
        // magnitude: the sum of the magnitudes of the summands
        let s = self.strip(l);
        let x = self.lind(s);
        let mut v = vec![];
        for (a, q) in x.v.iter() {
            if self.bounds(*a).0.lt(Q::ZERO) {
                return None;
            }
            v.push((*a, q.abs()));
        }
        let mag = self.mk(T::Lin(Rc::new(LinD { k: x.k.abs(), v })));
        let mag = if single { self.lin_scale(mag, Q::int(1 << 29)) } else { mag };
        let (_, e) = self.new_var(VarInfo { sort: Sort::Real, lo: Q::ZERO, hi: Q::ZERO, int: true, derived: true });
        let atom = self.lind(e).v[0].0;
        self.errs.insert(atom, mag);
        let r = self.lin_add(l, e, Q::ONE);
        self.err_of.insert((l, single), r);
        Some(r)
    }
    /// bound of the accumulated rounding error, in units of the unit roundoff
    pub fn error_bound(&mut self, l: TId) -> TId {
        let x = self.lind(l);
        let mut s = self.lin_c(Q::ZERO);
        for (a, q) in x.v.iter() {
            if let Some(m) = self.errs.get(a).copied() {
                s = self.lin_add(s, m, q.abs());
            }
        }
        s
    }
    pub fn lin_lt0(&mut self, l: TId) -> TId {
        let l = self.strip(l);
        let (lo, hi, _) = self.bounds(l);
        if hi.lt(Q::ZERO) {
            return TRUE;
        }
        if Q::ZERO.le(lo) {
            return FALSE;
        }
        let l = self.lin_norm(l, false);
        self.mk(T::LinLt(l))
    }
    pub fn lin_le0(&mut self, l: TId) -> TId {
        let l = self.strip(l);
        let (lo, hi, _) = self.bounds(l);
        if hi.le(Q::ZERO) {
            return TRUE;
        }
        if Q::ZERO.lt(lo) {
            return FALSE;
        }
        let l = self.lin_norm(l, false);
        self.mk(T::LinLe(l))
    }
    pub fn lin_eq0(&mut self, l: TId) -> TId {
        let l = self.strip(l);
        if let Some(k) = self.lin_const(l) {
            return self.b(k.n == 0);
        }
        let (lo, hi, _) = self.bounds(l);
        if hi.lt(Q::ZERO) || Q::ZERO.lt(lo) {
            return FALSE;
        }
        let l = self.lin_norm(l, true);
        self.mk(T::LinEq(l))
    }
    pub fn rite(&mut self, c: TId, a: TId, b: TId) -> TId {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let t = self.mk(T::RIte(c, a, b));
        self.lin_of_atom(t)
    }

    // ------------------------------------------------------------ bit-vectors
    pub fn bvc(&mut self, w: u32, x: u128) -> TId {
        self.mk(T::BvC(w, x & mask(w)))
    }
    pub fn bv_const(&self, t: TId) -> Option<u128> {
        match self.get(t) {
            T::BvC(_, x) => Some(*x),
            _ => None,
        }
    }
    pub fn bvw(&self, t: TId) -> u32 {
        match self.sort(t) {
            Sort::Bv(w) => w,
            s => panic!("bv expected, got {:?} {:?}", s, self.get(t)),
        }
    }
    /// is the term an ite tree whose leaves are constants
    fn ite_leaves(&self, t: TId, depth: u32) -> bool {
        match self.get(t) {
            T::BvC(..) => true,
            T::BvIte(_, _, a, b) => depth > 0 && self.ite_leaves(*a, depth - 1) && self.ite_leaves(*b, depth - 1),
            _ => false,
        }
    }
    fn is_ite(&self, t: TId) -> bool {
        matches!(self.get(t), T::BvIte(..))
    }
    pub fn bvite(&mut self, w: u32, c: TId, a: TId, b: TId) -> TId {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        self.mk(T::BvIte(w, c, a, b))
    }
    pub fn bool_to_bv(&mut self, w: u32, c: TId) -> TId {
        let a = self.bvc(w, 1);
        let b = self.bvc(w, 0);
        self.bvite(w, c, a, b)
    }
    pub fn bvbin(&mut self, op: Bin, w: u32, a: TId, b: TId) -> TId {
        if let (Some(x), Some(y)) = (self.bv_const(a), self.bv_const(b)) {
            if let Some(r) = crate::exec::int_bin(op, w, x, y) {
                return self.bvc(w, r);
            }
        }
        // push through ite trees with constant leaves
        if self.is_ite(a) && self.ite_leaves(a, 6) && self.bv_const(b).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(a).clone() {
                let p = self.bvbin(op, w, x, b);
                let q = self.bvbin(op, w, y, b);
                return self.bvite(w, c, p, q);
            }
        }
        if self.is_ite(b) && self.ite_leaves(b, 6) && self.bv_const(a).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(b).clone() {
                let p = self.bvbin(op, w, a, x);
                let q = self.bvbin(op, w, a, y);
                return self.bvite(w, c, p, q);
            }
        }
        let (ca, cb) = (self.bv_const(a), self.bv_const(b));
        let all = mask(w);
        match op {
            Bin::Add | Bin::Or | Bin::Xor => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if op == Bin::Or && (ca == Some(all) || cb == Some(all)) {
                    return self.bvc(w, all);
                }
                if op == Bin::Xor && a == b {
                    return self.bvc(w, 0);
                }
                if op == Bin::Or && a == b {
                    return a;
                }
            }
            Bin::Sub | Bin::Shl | Bin::LShr | Bin::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if op == Bin::Sub && a == b {
                    return self.bvc(w, 0);
                }
            }
            Bin::And => {
                if ca == Some(0) || cb == Some(0) {
                    return self.bvc(w, 0);
                }
                if ca == Some(all) || a == b {
                    return b;
                }
                if cb == Some(all) {
                    return a;
                }
                // and with low mask of zext
                if let Some(m) = cb {
                    if let T::Zext(_, x) = self.get(a).clone() {
                        let xw = self.bvw(x);
                        if m & mask(xw) == mask(xw) {
                            return a;
                        }
                    }
                }
            }
            Bin::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.bvc(w, 0);
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Bin::UDiv | Bin::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            _ => {}
        }
        let (a, b) = match op {
            Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor if a > b => (b, a),
            _ => (a, b),
        };
        // bool-valued ands/ors over 0/1 ites
        if matches!(op, Bin::And | Bin::Or | Bin::Xor) {
            if let (Some(x), Some(y)) = (self.as_bool01(a), self.as_bool01(b)) {
                let r = match op {
                    Bin::And => self.and(x, y),
                    Bin::Or => self.or(x, y),
                    _ => {
                        let e = self.iff(x, y);
                        self.not(e)
                    }
                };
                return self.bool_to_bv(w, r);
            }
        }
        self.mk(T::BvBin(op, w, a, b))
    }
    fn as_bool01(&self, t: TId) -> Option<TId> {
        if let T::BvIte(_, c, a, b) = self.get(t) {
            if self.bv_const(*a) == Some(1) && self.bv_const(*b) == Some(0) {
                return Some(*c);
            }
        }
        None
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: TId) -> TId {
        let w = self.bvw(a);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        let nw = hi - lo + 1;
        match self.get(a).clone() {
            T::BvC(_, x) => self.bvc(nw, x >> lo),
            T::BvIte(_, c, x, y) => {
                let p = self.extract(hi, lo, x);
                let q = self.extract(hi, lo, y);
                self.bvite(nw, c, p, q)
            }
            T::Extract(_, l2, x) => self.extract(hi + l2, lo + l2, x),
            T::Zext(_, x) => {
                let xw = self.bvw(x);
                if hi < xw {
                    self.extract(hi, lo, x)
                } else if lo >= xw {
                    self.bvc(nw, 0)
                } else {
                    let e = self.extract(xw - 1, lo, x);
                    self.zext(nw, e)
                }
            }
            T::Sext(_, x) => {
                let xw = self.bvw(x);
                if hi < xw {
                    self.extract(hi, lo, x)
                } else {
                    self.mk(T::Extract(hi, lo, a))
                }
            }
            T::Concat(h, l) => {
                let lw = self.bvw(l);
                if hi < lw {
                    self.extract(hi, lo, l)
                } else if lo >= lw {
                    self.extract(hi - lw, lo - lw, h)
                } else {
                    let x = self.extract(hi - lw, 0, h);
                    let y = self.extract(lw - 1, lo, l);
                    self.concat(x, y)
                }
            }
            T::BvBin(op, _, x, y) if matches!(op, Bin::And | Bin::Or | Bin::Xor) => {
                let p = self.extract(hi, lo, x);
                let q = self.extract(hi, lo, y);
                self.bvbin(op, nw, p, q)
            }
            T::BvBin(op, _, x, y) if lo == 0 && matches!(op, Bin::Add | Bin::Sub | Bin::Mul) => {
                let p = self.extract(hi, lo, x);
                let q = self.extract(hi, lo, y);
                self.bvbin(op, nw, p, q)
            }
            _ => self.mk(T::Extract(hi, lo, a)),
        }
    }
    pub fn zext(&mut self, w: u32, a: TId) -> TId {
        let aw = self.bvw(a);
        if aw == w {
            return a;
        }
        match self.get(a).clone() {
            T::BvC(_, x) => self.bvc(w, x),
            T::BvIte(_, c, x, y) => {
                let p = self.zext(w, x);
                let q = self.zext(w, y);
                self.bvite(w, c, p, q)
            }
            T::Zext(_, x) => self.zext(w, x),
            _ => self.mk(T::Zext(w, a)),
        }
    }
    pub fn sext(&mut self, w: u32, a: TId) -> TId {
        let aw = self.bvw(a);
        if aw == w {
            return a;
        }
        match self.get(a).clone() {
            T::BvC(_, x) => self.bvc(w, sx(x, aw) as u128),
            T::BvIte(_, c, x, y) => {
                let p = self.sext(w, x);
                let q = self.sext(w, y);
                self.bvite(w, c, p, q)
            }
            _ => self.mk(T::Sext(w, a)),
        }
    }
    pub fn concat(&mut self, h: TId, l: TId) -> TId {
        let (hw, lw) = (self.bvw(h), self.bvw(l));
        if let (Some(x), Some(y)) = (self.bv_const(h), self.bv_const(l)) {
            return self.bvc(hw + lw, (x << lw) | y);
        }
        if self.bv_const(h) == Some(0) {
            return self.zext(hw + lw, l);
        }
        if let (T::Extract(h1, l1, x), T::Extract(h2, l2, y)) = (self.get(h).clone(), self.get(l).clone()) {
            if x == y && l1 == h2 + 1 {
                return self.extract(h1, l2, x);
            }
        }
        self.mk(T::Concat(h, l))
    }
    pub fn bveq(&mut self, a: TId, b: TId) -> TId {
        if a == b {
            return TRUE;
        }
        if let (Some(x), Some(y)) = (self.bv_const(a), self.bv_const(b)) {
            return self.b(x == y);
        }
        let (a, b) = if self.bv_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.bv_const(b) {
            match self.get(a).clone() {
                T::BvIte(_, c, x, y) => {
                    let p = self.bveq(x, b);
                    let q = self.bveq(y, b);
                    return self.bite(c, p, q);
                }
                T::Zext(_, x) => {
                    let xw = self.bvw(x);
                    if k > mask(xw) {
                        return FALSE;
                    }
                    let kk = self.bvc(xw, k);
                    return self.bveq(x, kk);
                }
                T::BvBin(Bin::Add, w, x, y) => {
                    if let Some(c) = self.bv_const(x) {
                        let kk = self.bvc(w, k.wrapping_sub(c));
                        return self.bveq(y, kk);
                    }
                    if let Some(c) = self.bv_const(y) {
                        let kk = self.bvc(w, k.wrapping_sub(c));
                        return self.bveq(x, kk);
                    }
                }
                T::BvBin(Bin::Xor, w, x, y) => {
                    if let Some(c) = self.bv_const(x) {
                        let kk = self.bvc(w, k ^ c);
                        return self.bveq(y, kk);
                    }
                    if let Some(c) = self.bv_const(y) {
                        let kk = self.bvc(w, k ^ c);
                        return self.bveq(x, kk);
                    }
                }
                _ => {}
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(T::BvEq(a, b))
    }
    pub fn bvult(&mut self, a: TId, b: TId) -> TId {
        if a == b {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.bv_const(a), self.bv_const(b)) {
            return self.b(x < y);
        }
        if self.bv_const(b) == Some(0) {
            return FALSE;
        }
        if self.is_ite(a) && self.bv_const(b).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(a).clone() {
                let p = self.bvult(x, b);
                let q = self.bvult(y, b);
                return self.bite(c, p, q);
            }
        }
        if self.is_ite(b) && self.bv_const(a).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(b).clone() {
                let p = self.bvult(a, x);
                let q = self.bvult(a, y);
                return self.bite(c, p, q);
            }
        }
        self.mk(T::BvUlt(a, b))
    }
    pub fn bvslt(&mut self, a: TId, b: TId) -> TId {
        if a == b {
            return FALSE;
        }
        let w = self.bvw(a);
        if let (Some(x), Some(y)) = (self.bv_const(a), self.bv_const(b)) {
            return self.b(sx(x, w) < sx(y, w));
        }
        if self.is_ite(a) && self.bv_const(b).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(a).clone() {
                let p = self.bvslt(x, b);
                let q = self.bvslt(y, b);
                return self.bite(c, p, q);
            }
        }
        if self.is_ite(b) && self.bv_const(a).is_some() {
            if let T::BvIte(_, c, x, y) = self.get(b).clone() {
                let p = self.bvslt(a, x);
                let q = self.bvslt(a, y);
                return self.bite(c, p, q);
            }
        }
        self.mk(T::BvSlt(a, b))
    }

    // ------------------------------------------------------------ IEEE doubles
    pub fn fc(&mut self, x: u64) -> TId {
        // a single NaN
        let x = if f64::from_bits(x).is_nan() { f64::NAN.to_bits() } else { x };
        self.mk(T::FC(x))
    }
    pub fn fconst(&self, t: TId) -> Option<f64> {
        match self.get(t) {
            T::FC(x) => Some(f64::from_bits(*x)),
            _ => None,
        }
    }
    pub fn fop(&mut self, op: FOp, a: TId, b: TId) -> TId {
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            let r = match op {
                FOp::Add => x + y,
                FOp::Sub => x - y,
                FOp::Mul => x * y,
                FOp::Div => x / y,
                FOp::Sqrt => x.sqrt(),
                FOp::Neg => -x,
                FOp::Abs => x.abs(),
            };
            return self.fc(r.to_bits());
        }
        let (mut a, mut b) = (a, b);
        match op {
            FOp::Add => {
                // x + (-0.0) = x
                if self.fconst(b).map_or(false, |y| y.to_bits() == (-0.0f64).to_bits()) {
                    return a;
                }
                if self.fconst(a).map_or(false, |y| y.to_bits() == (-0.0f64).to_bits()) {
                    return b;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            FOp::Mul => {
                if self.fconst(b) == Some(1.0) {
                    return a;
                }
                if self.fconst(a) == Some(1.0) {
                    return b;
                }
                // (-x)*(-y) = x*y, and (p-q)*(p-q) = (q-p)*(q-p): the operands differ at most in
                // sign (or the sign of zero), and the square removes it.
                if a == b {
                    if let T::FOp2(FOp::Sub, p, q) = self.get(a).clone() {
                        if p > q {
                            a = self.mk(T::FOp2(FOp::Sub, q, p));
                            b = a;
                        }
                    }
                    if let T::FOp2(FOp::Neg, p, _) = self.get(a).clone() {
                        a = p;
                        b = p;
                    }
                    if let T::FOp2(FOp::Abs, p, _) = self.get(a).clone() {
                        return self.fop(FOp::Mul, p, p);
                    }
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            FOp::Abs => {
                if let T::FOp2(FOp::Sub, p, q) = self.get(a).clone() {
                    if p > q {
                        a = self.mk(T::FOp2(FOp::Sub, q, p));
                        b = a;
                    }
                }
                if let T::FOp2(FOp::Abs, ..) = self.get(a) {
                    return a;
                }
            }
            FOp::Neg => {
                if let T::FOp2(FOp::Neg, p, _) = self.get(a) {
                    return *p;
                }
            }
            _ => {}
        }
        self.mk(T::FOp2(op, a, b))
    }
    pub fn fite(&mut self, c: TId, a: TId, b: TId) -> TId {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        self.mk(T::FIte(c, a, b))
    }
    /// bounds of a finite floating-point term: rounding is monotone, so the operations on the
    /// bounds bound the operations on the values
    pub fn frange(&mut self, t: TId) -> Option<(f64, f64)> {
        if let Some(r) = self.frng.get(&t) {
            return *r;
        }
        let r = match self.get(t).clone() {
            T::FC(x) => Some((f64::from_bits(x), f64::from_bits(x))),
            T::FVar(i) => {
                let v = &self.vars[i as usize];
                if v.lo.lt(v.hi) {
                    Some((v.lo.to_f64(), v.hi.to_f64()))
                } else {
                    None
                }
            }
            T::FIte(_, a, b) => match (self.frange(a), self.frange(b)) {
                (Some(x), Some(y)) => Some((x.0.min(y.0), x.1.max(y.1))),
                _ => None,
            },
            T::FOp2(op, a, b) => match (self.frange(a), self.frange(b)) {
                (Some((al, ah)), Some((bl, bh))) => match op {
                    FOp::Add => Some((al + bl, ah + bh)),
                    FOp::Sub => Some((al - bh, ah - bl)),
                    FOp::Mul => {
                        let p = [al * bl, al * bh, ah * bl, ah * bh];
                        let hi = p.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                        let lo = p.iter().copied().fold(f64::INFINITY, f64::min);
                        Some((if a == b { lo.max(0.0) } else { lo }, hi))
                    }
                    FOp::Div => None,
                    FOp::Sqrt if al >= 0.0 => Some((al.sqrt(), ah.sqrt())),
                    FOp::Sqrt => None,
                    FOp::Neg => Some((-ah, -al)),
                    FOp::Abs => Some((if al > 0.0 { al } else if ah < 0.0 { -ah } else { 0.0 }, al.abs().max(ah.abs()))),
                },
                _ => None,
            },
            _ => None,
        };
        let r = r.filter(|(l, h)| l.is_finite() && h.is_finite());
        self.frng.insert(t, r);
        r
    }
    pub fn fisnan(&mut self, a: TId) -> TId {
        if let Some(x) = self.fconst(a) {
            return self.b(x.is_nan());
        }
        if self.frange(a).is_some() {
            return FALSE;
        }
        self.mk(T::FIsNan(a))
    }
    pub fn feq(&mut self, a: TId, b: TId) -> TId {
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            return self.b(x == y);
        }
        if a == b {
            let n = self.fisnan(a);
            return self.not(n);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(T::FEq(a, b))
    }
    pub fn flt(&mut self, a: TId, b: TId) -> TId {
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            return self.b(x < y);
        }
        if a == b {
            return FALSE;
        }
        if self.fconst(a).map_or(false, |x| x.is_nan() || x == f64::INFINITY) || self.fconst(b).map_or(false, |x| x.is_nan() || x == f64::NEG_INFINITY) {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.frange(a), self.frange(b)) {
            if x.1 < y.0 {
                return TRUE;
            }
            if y.1 <= x.0 {
                return FALSE;
            }
        }
        self.mk(T::FLt(a, b))
    }
    pub fn fle(&mut self, a: TId, b: TId) -> TId {
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            return self.b(x <= y);
        }
        if a == b {
            return self.feq(a, b);
        }
        if self.fconst(a).map_or(false, |x| x.is_nan()) || self.fconst(b).map_or(false, |x| x.is_nan()) {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.frange(a), self.frange(b)) {
            if x.1 <= y.0 {
                return TRUE;
            }
            if y.1 < x.0 {
                return FALSE;
            }
        }
        self.mk(T::FLe(a, b))
    }

    pub fn show(&self, t: TId) -> String {
        match self.get(t) {
            T::Lin(l) => {
                let mut s = String::new();
                for (a, q) in &l.v {
                    let c = if q.d == 1 { format!("{}", q.n) } else { format!("{}/{}", q.n, q.d) };
                    s += &format!("{}{}*{}", if s.is_empty() { "" } else { " + " }, c, self.show(*a));
                }
                if l.k.n != 0 || s.is_empty() {
                    s += &format!(" + {}/{}", l.k.n, l.k.d);
                }
                s
            }
            T::RVar(i) => format!("r{}", i),
            T::BvVar(i, _) => format!("b{}", i),
            T::BVarB(i) => format!("p{}", i),
            T::FVar(i) => format!("f{}", i),
            T::LinLt(l) => format!("({} < 0)", self.show(*l)),
            T::LinLe(l) => format!("({} <= 0)", self.show(*l)),
            T::LinEq(l) => format!("({} == 0)", self.show(*l)),
            T::Not(a) => format!("!{}", self.show(*a)),
            T::And(a, b) => format!("({} & {})", self.show(*a), self.show(*b)),
            T::Or(a, b) => format!("({} | {})", self.show(*a), self.show(*b)),
            T::BvC(_, x) => format!("{}", x),
            T::BvEq(a, b) => format!("({} == {})", self.show(*a), self.show(*b)),
            T::BvUlt(a, b) => format!("({} <u {})", self.show(*a), self.show(*b)),
            T::BvIte(_, c, a, b) => format!("ite({}, {}, {})", self.show(*c), self.show(*a), self.show(*b)),
            T::RIte(c, a, b) => format!("ite({}, {}, {})", self.show(*c), self.show(*a), self.show(*b)),
            x => format!("{:?}", x),
        }
    }
}
