//! Hash-consed terms. Real terms are kept in a linear-combination-of-monomials normal form.
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

thread_local! { pub static OVERFLOW: Cell<bool> = const { Cell::new(false) }; }
fn ovf() { OVERFLOW.with(|o| o.set(true)); }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat { pub n: i128, pub d: i128 }
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 { let t = a % b; a = b; b = t; }
    a as i128
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat { Rat { n, d: 1 } }
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 { ovf(); return Rat::ZERO; }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * (n / g), d: s * (d / g) }
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return match self.n.checked_add(o.n) { Some(n) => Rat { n, d: 1 }, None => { ovf(); Rat::ZERO } };
        }
        let g = gcd(self.d, o.d);
        let r = (|| {
            let od = o.d / g;
            let a = self.n.checked_mul(od)?;
            let b = o.n.checked_mul(self.d / g)?;
            Some(Rat::new(a.checked_add(b)?, self.d.checked_mul(od)?))
        })();
        r.unwrap_or_else(|| { ovf(); Rat::ZERO })
    }
    pub fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    pub fn mul(self, o: Rat) -> Rat {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let r = (|| {
            Some(Rat { n: (self.n / g1).checked_mul(o.n / g2)?, d: (self.d / g2).checked_mul(o.d / g1)? })
        })();
        r.unwrap_or_else(|| { ovf(); Rat::ZERO })
    }
    pub fn inv(self) -> Rat { Rat::new(self.d, self.n) }
    pub fn is_zero(self) -> bool { self.n == 0 }
    pub fn cmp(self, o: Rat) -> std::cmp::Ordering {
        let d = self.add(o.neg());
        d.n.cmp(&0)
    }
    pub fn to_f64(self) -> f64 {
        // correctly rounded when both parts are exact doubles
        self.n as f64 / self.d as f64
    }
    pub fn floor(self) -> i128 { self.n.div_euclid(self.d) }
    pub fn pow(self, e: i32) -> Rat {
        let b = if e < 0 { self.inv() } else { self };
        let mut r = Rat::ONE;
        for _ in 0..e.unsigned_abs() { r = r.mul(b); }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fun {
    Pi, Exp, Ln, Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Asinh, Acosh, Atanh, Sqrt, Cbrt,
    Floor, Ceil, Round, Trunc, Atan2, Opaque(u16),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RK { Lt, Le, Eq }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BC { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BB { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    None,
    True,
    False,
    Not(T),
    And(Rc<[T]>),
    Or(Rc<[T]>),
    RCmp(RK, T),
    IsInt(T),
    BCmp(BC, T, T),
    BVar(u32, u32),
    BConst(u32, u128),
    BBin(BB, T, T),
    BZext(T, u32),
    BSext(T, u32),
    BExt(T, u32, u32), // hi lo
    BCat(T, T),
    BIte(T, T, T),
    Lin(Rat, Rc<[(T, Rat)]>),
    Mono(Rc<[(T, i32)]>),
    RVar(u32),
    RFn(Fun, Rc<[T]>),
    RIte(T, T, T),
    RBig(u64),
    /// real value of an unsigned bit-vector
    RBv(T),
    /// two's complement bit-vector of an integer-valued real term
    BReal(T, u32),
    /// IEEE bits of a real term (opaque until represented)
    FBits(T),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort { Bool, Bv(u32), Real, Other }

pub const D_COEF: u8 = 1;
pub const D_REAL: u8 = 2;
pub const D_FN: u8 = 4;
pub const D_BV: u8 = 8;

#[derive(Clone, Copy, Debug)]
pub struct Info { pub dep: u8, pub int: bool, pub lo: f64, pub hi: f64 }

#[derive(Clone, Debug)]
pub enum VarKind { Coef(i64, i64), Real, Bv(u32) }

pub struct Store {
    pub nodes: Vec<N>,
    pub info: Vec<Info>,
    map: HashMap<N, T>,
    pub vars: Vec<VarKind>,
    pub opaque: Vec<String>,
    pub opaque_map: HashMap<String, u16>,
}

pub const TRUE: T = 1;
pub const FALSE: T = 2;

fn iv_mul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    for v in c { if v.is_nan() { return (f64::NEG_INFINITY, f64::INFINITY); } lo = lo.min(v); hi = hi.max(v); }
    (lo, hi)
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store { nodes: vec![N::None], info: vec![Info { dep: 0, int: false, lo: 0.0, hi: 0.0 }], map: HashMap::new(), vars: vec![], opaque: vec![], opaque_map: HashMap::new() };
        let t = s.mk(N::True);
        let f = s.mk(N::False);
        assert!(t == TRUE && f == FALSE);
        s
    }
    pub fn mk(&mut self, n: N) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let info = self.compute_info(&n);
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.info.push(info);
        self.map.insert(n, t);
        t
    }
    fn compute_info(&self, n: &N) -> Info {
        let inf = (f64::NEG_INFINITY, f64::INFINITY);
        let mut i = Info { dep: 0, int: false, lo: inf.0, hi: inf.1 };
        let d = |t: T| self.info[t as usize].dep;
        match n {
            N::None | N::True | N::False | N::BConst(..) => {}
            N::Not(a) | N::RCmp(_, a) | N::IsInt(a) | N::BReal(a, _) | N::FBits(a) | N::BZext(a, _) | N::BSext(a, _) | N::BExt(a, _, _) => i.dep = d(*a),
            N::And(v) | N::Or(v) => for x in v.iter() { i.dep |= d(*x) },
            N::BCmp(_, a, b) | N::BBin(_, a, b) | N::BCat(a, b) => i.dep = d(*a) | d(*b),
            N::BIte(c, a, b) => i.dep = d(*c) | d(*a) | d(*b),
            N::BVar(..) => i.dep = D_BV,
            N::RBv(b) => { i.dep = d(*b); i.int = true; let w = match self.sort(*b) { Sort::Bv(w) => w, _ => 64 }; i.lo = 0.0; i.hi = (2f64).powi(w as i32) - 1.0; }
            N::RIte(c, a, b) => {
                i.dep = d(*c) | d(*a) | d(*b);
                let (x, y) = (self.info[*a as usize], self.info[*b as usize]);
                i.int = x.int && y.int;
                i.lo = x.lo.min(y.lo);
                i.hi = x.hi.max(y.hi);
            }
            N::RVar(v) => match self.vars[*v as usize] {
                VarKind::Coef(lo, hi) => { i.dep = D_COEF; i.int = true; i.lo = lo as f64; i.hi = hi as f64; }
                _ => i.dep = D_REAL,
            },
            N::RBig(b) => { let v = f64::from_bits(*b); i.lo = v; i.hi = v; }
            N::RFn(f, args) => {
                i.dep = D_FN;
                for a in args.iter() { i.dep |= d(*a) }
                match f {
                    Fun::Pi => { i.dep = D_FN; i.lo = 3.14159; i.hi = 3.1416; }
                    Fun::Exp | Fun::Sqrt | Fun::Cosh => i.lo = 0.0,
                    Fun::Sin | Fun::Cos | Fun::Tanh => { i.lo = -1.0; i.hi = 1.0 }
                    Fun::Floor | Fun::Ceil | Fun::Round | Fun::Trunc => i.int = true,
                    _ => {}
                }
            }
            N::Mono(v) => {
                i.int = true;
                let mut r = (1.0, 1.0);
                for (a, e) in v.iter() {
                    let ia = self.info[*a as usize];
                    i.dep |= ia.dep;
                    if *e < 0 || !ia.int { i.int = false; }
                    if *e > 0 {
                        if e % 2 == 0 {
                            let sq = iv_mul((ia.lo, ia.hi), (ia.lo, ia.hi));
                            let lo = if ia.lo <= 0.0 && ia.hi >= 0.0 { 0.0 } else { (ia.lo * ia.lo).min(ia.hi * ia.hi) };
                            for _ in 0..*e / 2 { r = iv_mul(r, (lo, sq.1)); }
                        } else {
                            for _ in 0..*e { r = iv_mul(r, (ia.lo, ia.hi)); }
                        }
                    } else if ia.lo > 0.0 {
                        for _ in 0..-*e { r = iv_mul(r, (if ia.hi.is_infinite() { 0.0 } else { 1.0 / ia.hi }, 1.0 / ia.lo)); }
                    } else if ia.hi < 0.0 {
                        for _ in 0..-*e { r = iv_mul(r, (1.0 / ia.hi, if ia.lo.is_infinite() { 0.0 } else { 1.0 / ia.lo })); }
                    } else {
                        r = inf;
                    }
                }
                i.lo = r.0;
                i.hi = r.1;
            }
            N::Lin(k, ts) => {
                i.int = k.d == 1;
                let mut lo = k.to_f64();
                let mut hi = lo;
                for (m, c) in ts.iter() {
                    let im = self.info[*m as usize];
                    i.dep |= im.dep;
                    if c.d != 1 || !im.int { i.int = false; }
                    let r = iv_mul((im.lo, im.hi), (c.to_f64(), c.to_f64()));
                    lo += r.0;
                    hi += r.1;
                }
                // outward rounding
                let sl = |v: f64| v.abs() * 1e-12;
                if !ts.is_empty() && !i.int { lo -= sl(lo); hi += sl(hi); }
                i.lo = if lo.is_nan() { inf.0 } else { lo };
                i.hi = if hi.is_nan() { inf.1 } else { hi };
            }
        }
        i
    }
    pub fn n(&self, t: T) -> &N { &self.nodes[t as usize] }
    pub fn dep(&self, t: T) -> u8 { self.info[t as usize].dep }
    pub fn sort(&self, t: T) -> Sort {
        match self.n(t) {
            N::True | N::False | N::Not(_) | N::And(_) | N::Or(_) | N::RCmp(..) | N::IsInt(_) | N::BCmp(..) => Sort::Bool,
            N::BVar(_, w) | N::BConst(w, _) | N::BZext(_, w) | N::BSext(_, w) | N::BReal(_, w) => Sort::Bv(*w),
            N::FBits(_) => Sort::Bv(64),
            N::BBin(_, a, _) => self.sort(*a),
            N::BExt(_, hi, lo) => Sort::Bv(hi - lo + 1),
            N::BCat(a, b) => match (self.sort(*a), self.sort(*b)) { (Sort::Bv(x), Sort::Bv(y)) => Sort::Bv(x + y), _ => Sort::Other },
            N::BIte(_, a, _) => self.sort(*a),
            N::Lin(..) | N::Mono(_) | N::RVar(_) | N::RFn(..) | N::RIte(..) | N::RBig(_) | N::RBv(_) => Sort::Real,
            N::None => Sort::Other,
        }
    }
    // ------------------------------------------------------------ bool
    pub fn not(&mut self, a: T) -> T {
        match self.n(a).clone() {
            N::True => FALSE,
            N::False => TRUE,
            N::Not(x) => x,
            N::RCmp(RK::Lt, e) => { let ne = self.neg(e); self.rcmp0(RK::Le, ne) }
            N::RCmp(RK::Le, e) => { let ne = self.neg(e); self.rcmp0(RK::Lt, ne) }
            _ => self.mk(N::Not(a)),
        }
    }
    /// e <= 0 together with -e <= 0 is e = 0 (negated members when `neg`)
    fn both_le(&mut self, v: &[T], neg: bool) -> Option<(T, T, T)> {
        let mut seen: Vec<(T, T)> = vec![];
        for &x in v {
            if !matches!(self.n(x), N::RCmp(RK::Lt | RK::Le, _)) { continue; }
            let y = if neg { self.not(x) } else { x };
            let N::RCmp(RK::Le, e) = *self.n(y) else { continue };
            let me = self.neg(e);
            if let Some(p) = seen.iter().find(|p| p.1 == me) { let (a, b) = (p.0, x); let eq = self.rcmp0(RK::Eq, e); return Some((a, b, eq)); }
            seen.push((x, e));
        }
        None
    }
    pub fn and(&mut self, v: &[T]) -> T {
        let mut out: Vec<T> = vec![];
        for &x in v {
            match self.n(x).clone() {
                N::True => {}
                N::False => return FALSE,
                N::And(w) => out.extend(w.iter()),
                _ => out.push(x),
            }
        }
        out.sort_unstable();
        out.dedup();
        for &x in &out { let nx = self.not(x); if out.binary_search(&nx).is_ok() { return FALSE; } }
        if let Some((x, y, e)) = self.both_le(&out, false) {
            out.retain(|z| *z != x && *z != y);
            out.push(e);
            return self.and(&out);
        }
        match out.len() { 0 => TRUE, 1 => out[0], _ => self.mk(N::And(out.into())) }
    }
    pub fn or(&mut self, v: &[T]) -> T {
        let mut out: Vec<T> = vec![];
        for &x in v {
            match self.n(x).clone() {
                N::False => {}
                N::True => return TRUE,
                N::Or(w) => out.extend(w.iter()),
                _ => out.push(x),
            }
        }
        out.sort_unstable();
        out.dedup();
        for &x in &out { let nx = self.not(x); if out.binary_search(&nx).is_ok() { return TRUE; } }
        if let Some((x, y, e)) = self.both_le(&out, true) {
            out.retain(|z| *z != x && *z != y);
            let ne = self.not(e);
            out.push(ne);
            return self.or(&out);
        }
        match out.len() { 0 => FALSE, 1 => out[0], _ => self.mk(N::Or(out.into())) }
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        if a == TRUE { return self.not(b); }
        if b == TRUE { return self.not(a); }
        if a == FALSE { return b; }
        if b == FALSE { return a; }
        if a == b { return FALSE; }
        let (na, nb) = (self.not(a), self.not(b));
        let x = self.and(&[a, nb]);
        let y = self.and(&[na, b]);
        self.or(&[x, y])
    }
    pub fn implies(&mut self, a: T, b: T) -> T { let na = self.not(a); self.or(&[na, b]) }
    // ------------------------------------------------------------ real
    pub fn new_var(&mut self, k: VarKind) -> u32 { self.vars.push(k); (self.vars.len() - 1) as u32 }
    pub fn rat(&mut self, r: Rat) -> T { self.mk(N::Lin(r, Rc::new([]))) }
    pub fn int(&mut self, n: i128) -> T { self.rat(Rat::int(n)) }
    pub fn as_const(&self, t: T) -> Option<Rat> {
        match self.n(t) { N::Lin(k, ts) if ts.is_empty() => Some(*k), _ => None }
    }
    /// an atom as a Lin
    pub fn atom(&mut self, a: T) -> T {
        let m = self.mk(N::Mono(Rc::new([(a, 1)])));
        self.mk(N::Lin(Rat::ZERO, Rc::new([(m, Rat::ONE)])))
    }
    pub fn rvar(&mut self, v: u32) -> T { let a = self.mk(N::RVar(v)); self.atom(a) }
    fn lin(&mut self, k: Rat, mut ts: Vec<(T, Rat)>) -> T {
        ts.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(T, Rat)> = Vec::with_capacity(ts.len());
        for (m, c) in ts {
            if let Some(l) = out.last_mut() { if l.0 == m { l.1 = l.1.add(c); continue; } }
            out.push((m, c));
        }
        out.retain(|x| !x.1.is_zero());
        self.mk(N::Lin(k, out.into()))
    }
    pub fn parts(&self, t: T) -> (Rat, Rc<[(T, Rat)]>) {
        match self.n(t) { N::Lin(k, ts) => (*k, ts.clone()), x => panic!("not lin: {:?}", x) }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let (k1, t1) = self.parts(a);
        let (k2, t2) = self.parts(b);
        let mut v = t1.to_vec();
        v.extend(t2.iter());
        self.lin(k1.add(k2), v)
    }
    pub fn scale(&mut self, a: T, c: Rat) -> T {
        if c.is_zero() { return self.rat(Rat::ZERO); }
        if c == Rat::ONE { return a; }
        let (k, t) = self.parts(a);
        let v: Vec<(T, Rat)> = t.iter().map(|(m, x)| (*m, x.mul(c))).collect();
        self.mk(N::Lin(k.mul(c), v.into()))
    }
    pub fn neg(&mut self, a: T) -> T { self.scale(a, Rat::int(-1)) }
    pub fn sub(&mut self, a: T, b: T) -> T { let nb = self.neg(b); self.add(a, nb) }
    /// a as (coef, factors)
    fn as_mono(&mut self, a: T) -> (Rat, Vec<(T, i32)>) {
        let (k, ts) = self.parts(a);
        if ts.is_empty() { return (k, vec![]); }
        if k.is_zero() && ts.len() == 1 {
            if let N::Mono(f) = self.n(ts[0].0) { return (ts[0].1, f.to_vec()); }
        }
        // multi-term: content-normalised Lin atom
        let lead = ts[0].1;
        let n = self.scale(a, lead.inv());
        (lead, vec![(n, 1)])
    }
    fn from_mono(&mut self, c: Rat, mut f: Vec<(T, i32)>) -> T {
        f.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(T, i32)> = vec![];
        for (a, e) in f {
            if let Some(l) = out.last_mut() { if l.0 == a { l.1 += e; continue; } }
            out.push((a, e));
        }
        out.retain(|x| x.1 != 0);
        // sqrt(u)^2 -> u  (sqrt terms exist only on paths where u >= 0)
        if let Some(p) = out.iter().position(|(a, e)| (e.abs() >= 2 && matches!(self.n(*a), N::RFn(Fun::Sqrt, _))) || (e.abs() >= 3 && matches!(self.n(*a), N::RFn(Fun::Cbrt, _)))) {
            let (a, e) = out[p];
            let (root, u) = match self.n(a) { N::RFn(Fun::Sqrt, u) => (2, u[0]), N::RFn(_, u) => (3, u[0]), _ => unreachable!() };
            let q = e / root;
            out[p].1 = e - root * q;
            let rest = self.from_mono(c, out);
            let up = self.powi(u, q);
            return self.mul(rest, up);
        }
        if c.is_zero() { return self.rat(Rat::ZERO); }
        if out.is_empty() { return self.rat(c); }
        if out.len() == 1 && out[0].1 == 1 {
            if let N::Lin(..) = self.n(out[0].0) { let a = out[0].0; return self.scale(a, c); }
        }
        let m = self.mk(N::Mono(out.into()));
        self.mk(N::Lin(Rat::ZERO, Rc::new([(m, c)])))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(a) { return self.scale(b, c); }
        if let Some(c) = self.as_const(b) { return self.scale(a, c); }
        // distribute small products of coefficient-only terms so that comparisons normalise
        let (c1, mut f1) = self.as_mono(a);
        let (c2, f2) = self.as_mono(b);
        f1.extend(f2);
        self.from_mono(c1.mul(c2), f1)
    }
    /// caller guarantees b != 0 on the path
    pub fn inv(&mut self, b: T) -> T {
        let (c, f) = self.as_mono(b);
        let f: Vec<(T, i32)> = f.into_iter().map(|(a, e)| (a, -e)).collect();
        self.from_mono(c.inv(), f)
    }
    pub fn div(&mut self, a: T, b: T) -> T { let ib = self.inv(b); self.mul(a, ib) }
    pub fn powi(&mut self, a: T, n: i32) -> T {
        let (c, f) = self.as_mono(a);
        let f: Vec<(T, i32)> = f.into_iter().map(|(a, e)| (a, e * n)).collect();
        self.from_mono(c.pow(n), f)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        let x = self.mk(N::RIte(c, a, b));
        self.atom(x)
    }
    pub fn abs(&mut self, a: T) -> T {
        let i = self.info[a as usize];
        if i.lo >= 0.0 { return a; }
        if i.hi <= 0.0 { return self.neg(a); }
        let (lead, rest) = { let (_, ts) = self.parts(a); (ts[0].1, ts.len()) };
        let _ = rest;
        // canonical sign
        let a = if lead.n < 0 { self.neg(a) } else { a };
        let z = self.int(0);
        let c = self.rcmp(RK::Le, z, a);
        let na = self.neg(a);
        self.ite(c, a, na)
    }
    pub fn func(&mut self, f: Fun, args: Vec<T>) -> T {
        // parity normalisation
        let neg_lead = |s: &Store, t: T| -> bool {
            match s.n(t) { N::Lin(k, ts) => if let Some(x) = ts.first() { x.1.n < 0 } else { k.n < 0 }, _ => false }
        };
        match f {
            Fun::Sin | Fun::Tan | Fun::Asin | Fun::Atan | Fun::Sinh | Fun::Tanh | Fun::Asinh | Fun::Atanh | Fun::Cbrt => {
                if let Some(c) = self.as_const(args[0]) { if c.is_zero() { return self.int(0); } }
                if neg_lead(self, args[0]) {
                    let na = self.neg(args[0]);
                    let r = self.func(f, vec![na]);
                    return self.neg(r);
                }
            }
            Fun::Cos | Fun::Cosh => {
                if let Some(c) = self.as_const(args[0]) { if c.is_zero() { return self.int(1); } }
                if neg_lead(self, args[0]) {
                    let na = self.neg(args[0]);
                    return self.func(f, vec![na]);
                }
            }
            Fun::Exp => if let Some(c) = self.as_const(args[0]) { if c.is_zero() { return self.int(1); } },
            Fun::Ln => {
                if let Some(c) = self.as_const(args[0]) { if c == Rat::ONE { return self.int(0); } }
                // ln(exp(v)^k) = k v
                let (c, ts) = self.parts(args[0]);
                if c.is_zero() && ts.len() == 1 && ts[0].1 == Rat::ONE {
                    if let N::Mono(f) = self.n(ts[0].0) {
                        if f.len() == 1 {
                            let (a, k) = f[0];
                            if let N::RFn(Fun::Exp, v) = self.n(a) { let v = v[0]; return self.scale(v, Rat::int(k as i128)); }
                        }
                    }
                }
            }
            Fun::Sqrt => if let Some(c) = self.as_const(args[0]) {
                let (a, b) = (isqrt(c.n), isqrt(c.d));
                if let (Some(a), Some(b)) = (a, b) { return self.rat(Rat::new(a, b)); }
            },
            _ => {}
        }
        let a = self.mk(N::RFn(f, args.into()));
        self.atom(a)
    }
    pub fn opaque_fn(&mut self, name: &str) -> Fun {
        if let Some(&i) = self.opaque_map.get(name) { return Fun::Opaque(i); }
        let i = self.opaque.len() as u16;
        self.opaque.push(name.to_string());
        self.opaque_map.insert(name.to_string(), i);
        Fun::Opaque(i)
    }
    /// e (kind) 0
    pub fn rcmp0(&mut self, k: RK, e: T) -> T {
        let (c, ts) = self.parts(e);
        if ts.is_empty() {
            let b = match k { RK::Lt => c.n < 0, RK::Le => c.n <= 0, RK::Eq => c.n == 0 };
            return if b { TRUE } else { FALSE };
        }
        // a single linear ite: push the comparison into the branches
        {
            let mut at = None;
            let mut n = 0;
            for (m, x) in ts.iter() {
                if let N::Mono(f) = self.n(*m) {
                    for (a, ex) in f.iter() { if let N::RIte(..) = self.n(*a) { n += 1; if f.len() == 1 && *ex == 1 { at = Some((*m, *a, *x)); } else { n += 1; } } }
                }
            }
            if let (1, Some((m, a, x))) = (n, at) {
                let N::RIte(cond, p, q) = *self.n(a) else { unreachable!() };
                let rest: Vec<(T, Rat)> = ts.iter().filter(|y| y.0 != m).cloned().collect();
                let rest = self.lin(c, rest);
                let (p1, q1) = (self.scale(p, x), self.scale(q, x));
                let (p1, q1) = (self.add(p1, rest), self.add(q1, rest));
                let (cp, cq) = (self.rcmp0(k, p1), self.rcmp0(k, q1));
                if cp == cq { return cp; }
                let np = self.neg(p);
                let z = self.int(0);
                let abs = np == q && { let ge = self.rcmp(RK::Le, z, p); let gt = self.rcmp(RK::Lt, z, p); ge == cond || gt == cond };
                if abs && k != RK::Eq {
                    return if x.n > 0 { self.and(&[cp, cq]) } else { self.or(&[cp, cq]) };
                }
                let nc = self.not(cond);
                let l = self.and(&[cond, cp]);
                let r = self.and(&[nc, cq]);
                return self.or(&[l, r]);
            }
        }
        let i = self.info[e as usize];
        match k {
            RK::Lt => { if i.hi < 0.0 { return TRUE; } if i.lo >= 0.0 { return FALSE; } }
            RK::Le => { if i.hi <= 0.0 { return TRUE; } if i.lo > 0.0 { return FALSE; } }
            RK::Eq => { if i.lo > 0.0 || i.hi < 0.0 { return FALSE; } }
        }
        // normalise: content, and sign for Eq
        let mut g = 0i128;
        let mut l = 1i128;
        let mut big = false;
        for (_, x) in ts.iter() {
            g = gcd(g, x.n);
            match l.checked_mul(x.d / gcd(l, x.d)) { Some(v) if v < (1 << 90) => l = v, _ => { big = true; break } }
        }
        if big { return self.mk(N::RCmp(k, e)); }
        let mut s = Rat::new(l, g);
        if k == RK::Eq && ts[0].1.n < 0 { s = s.neg(); }
        let e2 = self.scale(e, s);
        let (c2, ts2) = self.parts(e2);
        let all_int = ts2.iter().all(|(m, x)| x.d == 1 && self.info[*m as usize].int);
        if all_int && c2.d != 1 {
            match k {
                RK::Eq => return FALSE,
                // S + c < 0  <=> S < -c <=> S <= ceil(-c)-1 = floor(-c)  (non-integer)
                RK::Lt | RK::Le => {
                    let f = c2.neg().floor();
                    let e3 = self.mk(N::Lin(Rat::int(-f), ts2));
                    return self.mk(N::RCmp(RK::Le, e3));
                }
            }
        }
        if all_int && k == RK::Lt {
            let e3 = self.mk(N::Lin(c2.add(Rat::ONE), ts2));
            return self.rcmp0_le_final(e3);
        }
        // product = 0 with a single monomial: reduce exponents; nonzero factors (negative exponents) vanish
        if k == RK::Eq && c2.is_zero() && ts2.len() == 1 {
            if let N::Mono(f) = self.n(ts2[0].0).clone() {
                let pos: Vec<T> = f.iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
                if pos.is_empty() { return FALSE; }
                if pos.len() > 1 || f.len() > 1 || f[0].1 != 1 {
                    let mut ors = vec![];
                    for a in pos {
                        let t = if let N::Lin(..) = self.n(a) { a } else { self.atom(a) };
                        ors.push(self.rcmp0(RK::Eq, t));
                    }
                    return self.or(&ors);
                }
            }
        }
        self.mk(N::RCmp(k, e2))
    }
    fn rcmp0_le_final(&mut self, e: T) -> T {
        let i = self.info[e as usize];
        if i.hi <= 0.0 { return TRUE; }
        if i.lo > 0.0 { return FALSE; }
        self.mk(N::RCmp(RK::Le, e))
    }
    pub fn rcmp(&mut self, k: RK, a: T, b: T) -> T {
        let d = self.sub(a, b);
        self.rcmp0(k, d)
    }
    pub fn is_int(&mut self, a: T) -> T {
        if self.info[a as usize].int { return TRUE; }
        if let Some(c) = self.as_const(a) { return if c.d == 1 { TRUE } else { FALSE }; }
        self.mk(N::IsInt(a))
    }
    // ------------------------------------------------------------ bv
    pub fn bconst(&mut self, w: u32, v: u128) -> T {
        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        self.mk(N::BConst(w, v & m))
    }
    pub fn bval(&self, t: T) -> Option<u128> { if let N::BConst(_, v) = self.n(t) { Some(*v) } else { None } }
    pub fn bw(&self, t: T) -> u32 { match self.sort(t) { Sort::Bv(w) => w, s => panic!("bw of {:?} {:?}", s, self.n(t)) } }
    /// integer-valued real view of a bit-vector (signed reading for constants)
    fn breal_of(&mut self, a: T) -> Option<T> {
        match *self.n(a) {
            N::BReal(t, _) => Some(t),
            N::BConst(w, v) => Some(self.int(crate::ir::sext128(v, w))),
            _ => None,
        }
    }
    pub fn breal(&mut self, t: T, w: u32) -> T {
        if let Some(c) = self.as_const(t) { if c.d == 1 { return self.bconst(w, c.n as u128); } }
        self.mk(N::BReal(t, w))
    }
    fn in_signed(&self, t: T, w: u32) -> bool { let i = self.info[t as usize]; let m = 2f64.powi(w as i32 - 1); i.lo >= -m && i.hi < m }
    pub fn bbin(&mut self, op: BB, a: T, b: T) -> T {
        let w = self.bw(a);
        if matches!(self.n(a), N::BReal(..)) || matches!(self.n(b), N::BReal(..)) {
            if let (Some(x), Some(y)) = (self.breal_of(a), self.breal_of(b)) {
                let r = match op {
                    BB::Add => Some(self.add(x, y)),
                    BB::Sub => Some(self.sub(x, y)),
                    BB::Mul => Some(self.mul(x, y)),
                    BB::Shl => self.bval(b).filter(|v| *v < 30).map(|v| 1i128 << v).map(|v| self.scale(x, Rat::int(v))),
                    _ => None,
                };
                if let Some(r) = r { if self.info[r as usize].int && self.in_signed(r, w) { return self.breal(r, w); } }
            }
        }
        if let (Some(x), Some(y)) = (self.bval(a), self.bval(b)) {
            if let Some(v) = eval_bb(op, w, x, y) { return self.bconst(w, v); }
        }
        match (op, self.bval(a), self.bval(b)) {
            (BB::Add | BB::Sub | BB::Or | BB::Xor | BB::Shl | BB::LShr | BB::AShr, _, Some(0)) => return a,
            (BB::Add | BB::Or | BB::Xor, Some(0), _) => return b,
            (BB::And | BB::Mul, _, Some(0)) => return b,
            (BB::And | BB::Mul, Some(0), _) => return a,
            (BB::Mul | BB::UDiv | BB::SDiv, _, Some(1)) => return a,
            (BB::And, _, Some(m)) => {
                if m == mask(w) { return a; }
                // and with low mask of a zext
                if let N::BZext(x, _) = *self.n(a) { let wx = self.bw(x); if m & mask(wx) == mask(wx) { return a; } }
            }
            (BB::And, Some(m), _) if m == mask(w) => return b,
            _ => {}
        }
        if let (BB::Add, Some(_), None) = (op, self.bval(a), self.bval(b)) { return self.bbin(op, b, a); }
        if let (BB::Sub, Some(y)) = (op, self.bval(b)) { let nb = self.bconst(w, y.wrapping_neg()); return self.bbin(BB::Add, a, nb); }
        if let (BB::Add, Some(y)) = (op, self.bval(b)) {
            if let N::BBin(BB::Add, x, c) = *self.n(a) {
                if let Some(z) = self.bval(c) { let s = self.bconst(w, y.wrapping_add(z)); return self.bbin(BB::Add, x, s); }
            }
        }
        // shl/lshr by const of zext/concat: keep generic
        self.mk(N::BBin(op, a, b))
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        if let Some(v) = self.bval(a) { return self.bconst(w, v); }
        if self.bw(a) == w { return a; }
        if let N::BZext(x, _) = *self.n(a) { return self.zext(x, w); }
        if let N::BReal(t, aw) = *self.n(a) { let i = self.info[t as usize]; if i.lo >= 0.0 && i.hi < 2f64.powi(aw as i32) { return self.breal(t, w); } }
        self.mk(N::BZext(a, w))
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.bw(a);
        if let Some(v) = self.bval(a) { return self.bconst(w, crate::ir::sext128(v, aw) as u128); }
        if aw == w { return a; }
        if let N::BZext(x, _) = *self.n(a) { if self.bw(x) < aw { return self.zext(x, w); } }
        if let N::BReal(t, aw) = *self.n(a) { if self.in_signed(t, aw) { return self.breal(t, w); } }
        self.mk(N::BSext(a, w))
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let w = self.bw(a);
        if lo == 0 && hi + 1 == w { return a; }
        if let Some(v) = self.bval(a) { return self.bconst(hi - lo + 1, v >> lo); }
        match self.n(a).clone() {
            N::BZext(x, _) => {
                let xw = self.bw(x);
                if lo >= xw { return self.bconst(hi - lo + 1, 0); }
                if hi < xw { return self.extract(x, hi, lo); }
                let e = self.extract(x, xw - 1, lo);
                return self.zext(e, hi - lo + 1);
            }
            N::BExt(x, _, l0) => return self.extract(x, hi + l0, lo + l0),
            N::BReal(t, _) if lo == 0 => {
                let i = self.info[t as usize];
                let nw = hi + 1;
                if self.in_signed(t, nw) || (i.lo >= 0.0 && i.hi < 2f64.powi(nw as i32)) { return self.breal(t, nw); }
            }
            N::BReal(t, aw) if lo + 1 == aw && hi == lo => {
                // sign bit
                if self.in_signed(t, aw) { let c = self.rcmp0(RK::Lt, t); let o = self.bconst(1, 1); let z = self.bconst(1, 0); return self.bite(c, o, z); }
            }
            N::BCat(h, l) => {
                let lw = self.bw(l);
                if hi < lw { return self.extract(l, hi, lo); }
                if lo >= lw { return self.extract(h, hi - lw, lo - lw); }
            }
            N::BIte(c, x, y) => {
                let (x, y) = (self.extract(x, hi, lo), self.extract(y, hi, lo));
                return self.bite(c, x, y);
            }
            N::BBin(op @ (BB::And | BB::Or | BB::Xor), x, y) => {
                let (x, y) = (self.extract(x, hi, lo), self.extract(y, hi, lo));
                return self.bbin(op, x, y);
            }
            N::BBin(op @ (BB::Add | BB::Sub | BB::Mul), x, y) if lo == 0 => {
                let (x, y) = (self.extract(x, hi, 0), self.extract(y, hi, 0));
                return self.bbin(op, x, y);
            }
            N::BBin(BB::LShr, x, s) => if let Some(s) = self.bval(s) { if hi + (s as u32) < w { return self.extract(x, hi + s as u32, lo + s as u32); } },
            N::BBin(BB::Shl, x, s) => if let Some(s) = self.bval(s) {
                let s = s as u32;
                if lo >= s { return self.extract(x, hi - s, lo - s); }
                if hi < s { return self.bconst(hi - lo + 1, 0); }
            },
            _ => {}
        }
        self.mk(N::BExt(a, hi, lo))
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.bw(h), self.bw(l));
        if let (Some(a), Some(b)) = (self.bval(h), self.bval(l)) { return self.bconst(hw + lw, (a << lw) | b); }
        if self.bval(h) == Some(0) { return self.zext(l, hw + lw); }
        if let (N::BExt(x, h1, l1), N::BExt(y, h2, l2)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && l1 == h2 + 1 { return self.extract(x, h1, l2); }
        }
        self.mk(N::BCat(h, l))
    }
    pub fn bite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        self.mk(N::BIte(c, a, b))
    }
    pub fn bcmp(&mut self, k: BC, a: T, b: T) -> T {
        let w = self.bw(a);
        if let (Some(x), Some(y)) = (self.bval(a), self.bval(b)) {
            let r = match k {
                BC::Eq => x == y,
                BC::Ult => x < y,
                BC::Ule => x <= y,
                BC::Slt => crate::ir::sext128(x, w) < crate::ir::sext128(y, w),
                BC::Sle => crate::ir::sext128(x, w) <= crate::ir::sext128(y, w),
            };
            return if r { TRUE } else { FALSE };
        }
        if a == b { return if matches!(k, BC::Eq | BC::Ule | BC::Sle) { TRUE } else { FALSE }; }
        if matches!(self.n(a), N::BReal(..)) || matches!(self.n(b), N::BReal(..)) {
            if let (Some(x), Some(y)) = (self.breal_of(a), self.breal_of(b)) {
                if self.in_signed(x, w) && self.in_signed(y, w) {
                    let nonneg = self.info[x as usize].lo >= 0.0 && self.info[y as usize].lo >= 0.0;
                    let rk = match k { BC::Eq => Some(RK::Eq), BC::Slt => Some(RK::Lt), BC::Sle => Some(RK::Le), BC::Ult if nonneg => Some(RK::Lt), BC::Ule if nonneg => Some(RK::Le), _ => None };
                    if let Some(rk) = rk { return self.rcmp(rk, x, y); }
                    // unsigned comparison of a possibly negative value
                    let (zx, zy) = (self.rcmp0(RK::Lt, x), self.rcmp0(RK::Lt, y));
                    let c = self.rcmp(if k == BC::Ult { RK::Lt } else { RK::Le }, x, y);
                    // both same sign: plain order; x >= 0 and y < 0: true; x < 0 and y >= 0: false
                    let nzx = self.not(zx);
                    let nzy = self.not(zy);
                    let s1 = self.and(&[zx, zy, c]);
                    let s2 = self.and(&[nzx, nzy, c]);
                    let s3 = self.and(&[nzx, zy]);
                    return self.or(&[s1, s2, s3]);
                }
            }
        }
        // narrow zext comparisons
        let za = if let N::BZext(x, _) = *self.n(a) { Some(x) } else { None };
        let zb = if let N::BZext(x, _) = *self.n(b) { Some(x) } else { None };
        if let (Some(x), Some(y)) = (za, self.bval(b)) {
            let xw = self.bw(x);
            let signed_neg = matches!(k, BC::Slt | BC::Sle) && (y >> (w - 1)) & 1 == 1;
            if signed_neg { return FALSE; }
            if y > mask(xw) {
                return if k == BC::Eq { FALSE } else { TRUE };
            }
            let yc = self.bconst(xw, y);
            let k2 = match k { BC::Slt => BC::Ult, BC::Sle => BC::Ule, k => k };
            return self.bcmp(k2, x, yc);
        }
        if let (Some(y), Some(x)) = (self.bval(a), zb) {
            let xw = self.bw(x);
            let signed_neg = matches!(k, BC::Slt | BC::Sle) && (y >> (w - 1)) & 1 == 1;
            if signed_neg { return TRUE; }
            if y > mask(xw) { return FALSE; }
            let yc = self.bconst(xw, y);
            let k2 = match k { BC::Slt => BC::Ult, BC::Sle => BC::Ule, k => k };
            return self.bcmp(k2, yc, x);
        }
        if let (Some(x), Some(y)) = (za, zb) {
            if self.bw(x) == self.bw(y) {
                let k2 = match k { BC::Slt => BC::Ult, BC::Sle => BC::Ule, k => k };
                return self.bcmp(k2, x, y);
            }
        }
        if k == BC::Eq {
            for (p, q) in [(a, b), (b, a)] {
                if let (N::BIte(c, x, y), Some(v)) = (self.n(p).clone(), self.bval(q)) {
                    if let (Some(xv), Some(yv)) = (self.bval(x), self.bval(y)) {
                        return match (xv == v, yv == v) {
                            (true, true) => TRUE,
                            (false, false) => FALSE,
                            (true, false) => c,
                            (false, true) => self.not(c),
                        };
                    }
                }
                if let (N::BBin(BB::Add, x, c), Some(v)) = (self.n(p).clone(), self.bval(q)) {
                    if let Some(cv) = self.bval(c) { let nv = self.bconst(w, v.wrapping_sub(cv)); return self.bcmp(BC::Eq, x, nv); }
                }
                if let (N::BCat(h, l), Some(v)) = (self.n(p).clone(), self.bval(q)) {
                    let (hw, lw) = (self.bw(h), self.bw(l));
                    let hv = self.bconst(hw, v >> lw);
                    let lv = self.bconst(lw, v);
                    let e1 = self.bcmp(BC::Eq, h, hv);
                    let e2 = self.bcmp(BC::Eq, l, lv);
                    return self.and(&[e1, e2]);
                }
            }
            if a > b { return self.mk(N::BCmp(k, b, a)); }
        }
        self.mk(N::BCmp(k, a, b))
    }
    /// variable-free parts replaced by their value rounded to 12 digits
    pub fn round_consts(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) { return r; }
        let near = |v: f64| -> Option<Rat> {
            if v == 0.0 { return Some(Rat::ZERO); }
            if !v.is_finite() { return None; }
            let p = 11 - v.abs().log10().floor() as i32;
            if !(0..=24).contains(&p) { return if v == v.trunc() && v.abs() < 1e30 { Some(Rat::int(v as i128)) } else { None }; }
            Some(Rat::new((v * 10f64.powi(p)).round() as i128, 10i128.pow(p as u32)))
        };
        let n = self.n(t).clone();
        let r = match n {
            N::Lin(k, ts) => {
                let kk = if k.d == 1 { k } else { near(k.to_f64()).unwrap_or(k) };
                let mut acc = self.rat(kk);
                for (m, c) in ts.iter() {
                    let x = self.round_consts(*m, memo);
                    let x = if matches!(self.n(x), N::Lin(..)) { x } else { self.mk(N::Lin(Rat::ZERO, Rc::new([(x, Rat::ONE)]))) };
                    let c = if c.d == 1 { *c } else { near(c.to_f64()).unwrap_or(*c) };
                    let x = self.scale(x, c);
                    acc = self.add(acc, x);
                }
                acc
            }
            N::Mono(f) => {
                let mut acc = self.int(1);
                for (a, e) in f.iter() {
                    let x = self.round_consts(*a, memo);
                    let x = if matches!(self.n(x), N::Lin(..)) { x } else { self.atom(x) };
                    let x = self.powi(x, *e);
                    acc = self.mul(acc, x);
                }
                acc
            }
            N::RFn(f, a) => {
                let v: Vec<T> = a.iter().map(|x| self.round_consts(*x, memo)).collect();
                if v[..] == a[..] { t } else { self.func(f, v) }
            }
            _ => t,
        };
        let r = if self.dep(t) & (D_COEF | D_REAL | D_BV) == 0 && matches!(self.n(t), N::Lin(..) | N::Mono(..) | N::RFn(..) | N::RBig(..)) {
            match near(self.evalr(t, &[], &mut HashMap::new())) { Some(q) => self.rat(q), None => r }
        } else { r };
        memo.insert(t, r);
        r
    }
    /// e = 0 up to a relative error of 1e-9 in the coefficient of every monomial
    pub fn zero_up_to_rounding(&mut self, e: T) -> bool {
        let (k0, ts0) = self.parts(e);
        let mut groups: HashMap<T, (f64, f64)> = HashMap::new();
        let mut memo = HashMap::new();
        groups.insert(TRUE, (k0.to_f64(), k0.to_f64().abs()));
        for (m, c) in ts0.iter() {
            let x = self.round_consts(*m, &mut memo);
            let (mut w, mut key) = (c.to_f64(), TRUE);
            if matches!(self.n(x), N::Lin(..)) {
                if let Some(q) = self.as_const(x) { w *= q.to_f64(); } else {
                    let (q, f) = self.as_mono(x);
                    w *= q.to_f64();
                    key = self.mk(N::Mono(f.into()));
                }
            } else { key = x; }
            let g = groups.entry(key).or_insert((0.0, 0.0));
            g.0 += w;
            g.1 += w.abs();
        }
        let ok = !OVERFLOW.with(|o| o.replace(false));
        ok && groups.values().all(|(s, a)| a.is_finite() && s.abs() <= 1e-9 * a)
    }
    /// substitute variables (RVar / BVar ids) by terms
    pub fn subst(&mut self, t: T, map: &HashMap<u32, T>, memo: &mut HashMap<T, T>) -> T {
        if self.dep(t) & (D_COEF | D_REAL | D_BV) == 0 { return t; }
        if let Some(&r) = memo.get(&t) { return r; }
        let n = self.n(t).clone();
        let r = match n {
            N::Not(a) => { let a = self.subst(a, map, memo); self.not(a) }
            N::And(v) => { let v: Vec<T> = v.iter().map(|x| self.subst(*x, map, memo)).collect(); self.and(&v) }
            N::Or(v) => { let v: Vec<T> = v.iter().map(|x| self.subst(*x, map, memo)).collect(); self.or(&v) }
            N::RCmp(k, e) => { let e2 = self.subst(e, map, memo); if e2 == e { t } else { self.rcmp0(k, e2) } }
            N::IsInt(a) => { let a = self.subst(a, map, memo); self.is_int(a) }
            N::BCmp(k, a, b) => { let (a, b) = (self.subst(a, map, memo), self.subst(b, map, memo)); self.bcmp(k, a, b) }
            N::BVar(v, _) | N::RVar(v) => match map.get(&v) { Some(&r) => r, None => t },
            N::BBin(o, a, b) => { let (a, b) = (self.subst(a, map, memo), self.subst(b, map, memo)); self.bbin(o, a, b) }
            N::BZext(a, w) => { let a = self.subst(a, map, memo); self.zext(a, w) }
            N::BSext(a, w) => { let a = self.subst(a, map, memo); self.sext(a, w) }
            N::BExt(a, h, l) => { let a = self.subst(a, map, memo); self.extract(a, h, l) }
            N::BCat(a, b) => { let (a, b) = (self.subst(a, map, memo), self.subst(b, map, memo)); self.concat(a, b) }
            N::BIte(c, a, b) => { let (c, a, b) = (self.subst(c, map, memo), self.subst(a, map, memo), self.subst(b, map, memo)); self.bite(c, a, b) }
            N::BReal(a, w) => { let a = self.subst(a, map, memo); self.breal(a, w) }
            N::FBits(a) => { let a = self.subst(a, map, memo); self.fbits(a) }
            N::Lin(k, ts) => {
                let mut changed = false;
                let ms: Vec<T> = ts.iter().map(|(m, _)| { let r = self.subst(*m, map, memo); if r != *m { changed = true; } r }).collect();
                if !changed { t } else {
                    let mut acc = self.rat(k);
                    for (i, (m, c)) in ts.iter().enumerate() {
                        let x = if ms[i] == *m { self.mk(N::Lin(Rat::ZERO, Rc::new([(*m, Rat::ONE)]))) } else { ms[i] };
                        let x = self.scale(x, *c);
                        acc = self.add(acc, x);
                    }
                    acc
                }
            }
            N::Mono(f) => {
                let mut changed = false;
                let fs: Vec<T> = f.iter().map(|(a, _)| { let r = self.subst(*a, map, memo); if r != *a { changed = true; } r }).collect();
                if !changed { t } else {
                    let mut acc = self.int(1);
                    for (i, (a, e)) in f.iter().enumerate() {
                        let x = if fs[i] == *a && !matches!(self.n(*a), N::Lin(..)) { self.atom(*a) } else { fs[i] };
                        let x = self.powi(x, *e);
                        acc = self.mul(acc, x);
                    }
                    acc
                }
            }
            N::RFn(f, a) => {
                let v: Vec<T> = a.iter().map(|x| self.subst(*x, map, memo)).collect();
                if v[..] == a[..] { t } else { self.func(f, v) }
            }
            N::RIte(c, a, b) => { let (c2, a2, b2) = (self.subst(c, map, memo), self.subst(a, map, memo), self.subst(b, map, memo)); if (c2, a2, b2) == (c, a, b) { t } else { self.ite(c2, a2, b2) } }
            N::RBv(b) => { let b2 = self.subst(b, map, memo); if b2 == b { t } else { self.rbv(b2) } }
            _ => t,
        };
        memo.insert(t, r);
        r
    }
    pub fn rbv(&mut self, b: T) -> T {
        if let Some(v) = self.bval(b) { return self.int(v as i128); }
        if let N::BReal(t, _) = *self.n(b) { if self.info[t as usize].lo >= 0.0 { return t; } }
        // arithmetic that cannot wrap around
        match *self.n(b) {
            N::BZext(a, _) => return self.rbv(a),
            N::BBin(BB::Add, p, q) if self.ub(p).checked_add(self.ub(q)).is_some_and(|u| u <= mask(self.width(b))) => { let (p, q) = (self.rbv(p), self.rbv(q)); return self.add(p, q); }
            N::BBin(BB::Mul, p, q) if self.ub(p).checked_mul(self.ub(q)).is_some_and(|u| u <= mask(self.width(b))) => { let (p, q) = (self.rbv(p), self.rbv(q)); return self.mul(p, q); }
            _ => {}
        }
        let a = self.mk(N::RBv(b));
        self.atom(a)
    }
    fn width(&self, b: T) -> u32 { match self.sort(b) { Sort::Bv(w) => w, _ => 64 } }
    /// upper bound of an unsigned bit-vector
    fn ub(&self, b: T) -> u128 {
        if let Some(v) = self.bval(b) { return v; }
        let m = mask(self.width(b));
        match *self.n(b) {
            N::BZext(a, _) => self.ub(a),
            N::BBin(BB::Add, p, q) => self.ub(p).checked_add(self.ub(q)).filter(|u| *u <= m).unwrap_or(m),
            N::BBin(BB::Mul, p, q) => self.ub(p).checked_mul(self.ub(q)).filter(|u| *u <= m).unwrap_or(m),
            N::BBin(BB::And, p, q) => self.ub(p).min(self.ub(q)),
            N::BIte(_, p, q) => self.ub(p).max(self.ub(q)),
            _ => m,
        }
    }
    pub fn fbits(&mut self, t: T) -> T {
        if let Some(c) = self.as_const(t) { let b = c.to_f64().to_bits(); return self.bconst(64, b as u128); }
        self.mk(N::FBits(t))
    }
    pub fn vars_of(&self, t: T, out: &mut Vec<u32>, seen: &mut std::collections::HashSet<T>) {
        if self.dep(t) & (D_COEF | D_REAL | D_BV) == 0 || !seen.insert(t) { return; }
        match self.n(t) {
            N::RVar(v) | N::BVar(v, _) => out.push(*v),
            N::Not(a) | N::RCmp(_, a) | N::IsInt(a) | N::BReal(a, _) | N::FBits(a) | N::BZext(a, _) | N::BSext(a, _) | N::BExt(a, _, _) | N::RBv(a) => self.vars_of(*a, out, seen),
            N::And(v) | N::Or(v) => for x in v.iter() { self.vars_of(*x, out, seen) },
            N::BCmp(_, a, b) | N::BBin(_, a, b) | N::BCat(a, b) => { self.vars_of(*a, out, seen); self.vars_of(*b, out, seen) }
            N::BIte(c, a, b) | N::RIte(c, a, b) => { self.vars_of(*c, out, seen); self.vars_of(*a, out, seen); self.vars_of(*b, out, seen) }
            N::Lin(_, ts) => for (m, _) in ts.iter() { self.vars_of(*m, out, seen) },
            N::Mono(f) => for (a, _) in f.iter() { self.vars_of(*a, out, seen) },
            N::RFn(_, a) => for x in a.iter() { self.vars_of(*x, out, seen) },
            _ => {}
        }
    }
    /// numeric evaluation of a real term; NaN when a value is missing
    pub fn evalr(&self, t: T, m: &[f64], memo: &mut HashMap<T, f64>) -> f64 {
        if let Some(&v) = memo.get(&t) { return v; }
        let v = match self.n(t) {
            N::RVar(v) => m.get(*v as usize).copied().unwrap_or(f64::NAN),
            N::RBig(b) => f64::from_bits(*b),
            N::Lin(k, ts) => { let mut a = k.to_f64(); for (x, c) in ts.iter() { a += c.to_f64() * self.evalr(*x, m, memo); } a }
            N::Mono(f) => { let mut a = 1.0; for (x, e) in f.iter() { a *= self.evalr(*x, m, memo).powi(*e); } a }
            N::RIte(c, a, b) => match self.evalb(*c, m, memo) { Some(true) => self.evalr(*a, m, memo), Some(false) => self.evalr(*b, m, memo), None => f64::NAN },
            N::RBv(b) => match self.evalv(*b, m, memo) { Some(v) => v as f64, None => f64::NAN },
            N::RFn(f, a) => {
                let x = a.first().map(|x| self.evalr(*x, m, memo)).unwrap_or(0.0);
                match f {
                    Fun::Pi => std::f64::consts::PI, Fun::Exp => x.exp(), Fun::Ln => x.abs().ln(), Fun::Sin => x.sin(), Fun::Cos => x.cos(), Fun::Tan => x.tan(),
                    Fun::Asin => x.asin(), Fun::Acos => x.acos(), Fun::Atan => x.atan(), Fun::Sinh => x.sinh(), Fun::Cosh => x.cosh(), Fun::Tanh => x.tanh(),
                    Fun::Asinh => x.asinh(), Fun::Acosh => x.acosh(), Fun::Atanh => x.atanh(), Fun::Sqrt => x.abs().sqrt(), Fun::Cbrt => x.cbrt(),
                    Fun::Floor => x.floor(), Fun::Ceil => x.ceil(), Fun::Round => x.round(), Fun::Trunc => x.trunc(),
                    Fun::Atan2 => x.atan2(self.evalr(a[1], m, memo)),
                    Fun::Opaque(_) => f64::NAN,
                }
            }
            _ => f64::NAN,
        };
        memo.insert(t, v);
        v
    }
    pub fn evalb(&self, t: T, m: &[f64], memo: &mut HashMap<T, f64>) -> Option<bool> {
        Some(match self.n(t) {
            N::True => true,
            N::False => false,
            N::Not(a) => !self.evalb(*a, m, memo)?,
            N::And(v) => { let mut r = true; for x in v.iter() { r &= self.evalb(*x, m, memo)?; } r }
            N::Or(v) => { let mut r = false; for x in v.iter() { r |= self.evalb(*x, m, memo)?; } r }
            N::RCmp(k, e) => {
                let v = self.evalr(*e, m, memo);
                if v.is_nan() { return None; }
                let exact = self.info[*e as usize].int;
                if !exact && v.abs() < 1e-9 && *k != RK::Eq { return None; }
                if !exact && *k == RK::Eq && v.abs() < 1e-9 { return None; }
                match k { RK::Lt => v < 0.0, RK::Le => v <= 0.0, RK::Eq => v == 0.0 }
            }
            N::IsInt(a) => { let v = self.evalr(*a, m, memo); if v.is_nan() { return None; } v.fract() == 0.0 }
            N::BCmp(k, a, b) => {
                let (x, y) = (self.evalv(*a, m, memo)?, self.evalv(*b, m, memo)?);
                let w = self.bw(*a);
                let (sx, sy) = (crate::ir::sext128(x, w), crate::ir::sext128(y, w));
                match k { BC::Eq => x == y, BC::Ult => x < y, BC::Ule => x <= y, BC::Slt => sx < sy, BC::Sle => sx <= sy }
            }
            _ => return None,
        })
    }
    pub fn evalv(&self, t: T, m: &[f64], memo: &mut HashMap<T, f64>) -> Option<u128> {
        Some(match self.n(t) {
            N::BConst(_, v) => *v,
            N::BVar(v, w) => { let x = *m.get(*v as usize)?; if x.is_nan() { return None; } (x as i128 as u128) & mask(*w) }
            N::BBin(o, a, b) => eval_bb(*o, self.bw(*a), self.evalv(*a, m, memo)?, self.evalv(*b, m, memo)?)?,
            N::BZext(a, _) => self.evalv(*a, m, memo)?,
            N::BSext(a, w) => (crate::ir::sext128(self.evalv(*a, m, memo)?, self.bw(*a)) as u128) & mask(*w),
            N::BExt(a, h, l) => (self.evalv(*a, m, memo)? >> l) & mask(h - l + 1),
            N::BCat(a, b) => (self.evalv(*a, m, memo)? << self.bw(*b)) | self.evalv(*b, m, memo)?,
            N::BIte(c, a, b) => if self.evalb(*c, m, memo)? { self.evalv(*a, m, memo)? } else { self.evalv(*b, m, memo)? },
            N::BReal(a, w) => { let v = self.evalr(*a, m, memo); if v.is_nan() { return None; } (v.round() as i128 as u128) & mask(*w) }
            _ => return None,
        })
    }
    pub fn show(&self, t: T) -> String { self.show_d(t, 0) }
    fn show_d(&self, t: T, d: u32) -> String {
        if d > 14 { return "..".into(); }
        let s = |x: T| self.show_d(x, d + 1);
        let rat = |r: &Rat| if r.d == 1 { format!("{}", r.n) } else { format!("{}/{}", r.n, r.d) };
        match self.n(t) {
            N::None => "?".into(),
            N::True => "true".into(),
            N::False => "false".into(),
            N::Not(a) => format!("!({})", s(*a)),
            N::And(v) => format!("and({})", v.iter().map(|x| s(*x)).collect::<Vec<_>>().join(", ")),
            N::Or(v) => format!("or({})", v.iter().map(|x| s(*x)).collect::<Vec<_>>().join(", ")),
            N::RCmp(k, e) => format!("{} {} 0", s(*e), match k { RK::Lt => "<", RK::Le => "<=", RK::Eq => "=" }),
            N::IsInt(a) => format!("isint({})", s(*a)),
            N::BCmp(k, a, b) => format!("{:?}({}, {})", k, s(*a), s(*b)),
            N::BVar(v, _) => format!("b{}", v),
            N::BConst(_, v) => format!("{:#x}", v),
            N::BBin(o, a, b) => format!("{:?}({}, {})", o, s(*a), s(*b)),
            N::BZext(a, w) => format!("zext{}({})", w, s(*a)),
            N::BSext(a, w) => format!("sext{}({})", w, s(*a)),
            N::BExt(a, h, l) => format!("{}[{}:{}]", s(*a), h, l),
            N::BCat(a, b) => format!("({}++{})", s(*a), s(*b)),
            N::BIte(c, a, b) | N::RIte(c, a, b) => format!("ite({}, {}, {})", s(*c), s(*a), s(*b)),
            N::Lin(k, ts) => {
                let mut v: Vec<String> = ts.iter().map(|(m, c)| if *c == Rat::ONE { s(*m) } else { format!("{}*{}", rat(c), s(*m)) }).collect();
                if !k.is_zero() || v.is_empty() { v.push(rat(k)); }
                if v.len() == 1 { v.pop().unwrap() } else { format!("({})", v.join(" + ")) }
            }
            N::Mono(f) => f.iter().map(|(a, e)| if *e == 1 { s(*a) } else { format!("{}^{}", s(*a), e) }).collect::<Vec<_>>().join("*"),
            N::RVar(v) => match self.vars[*v as usize] { VarKind::Coef(..) => format!("c{}", v), _ => format!("x{}", v) },
            N::RFn(f, a) => {
                let n = match f { Fun::Opaque(i) => self.opaque[*i as usize].clone(), f => format!("{:?}", f).to_lowercase() };
                format!("{}({})", n, a.iter().map(|x| s(*x)).collect::<Vec<_>>().join(", "))
            }
            N::RBig(b) => format!("{:e}", f64::from_bits(*b)),
            N::RBv(b) => format!("nat({})", s(*b)),
            N::BReal(b, w) => format!("int{}({})", w, s(*b)),
            N::FBits(b) => format!("bits({})", s(*b)),
        }
    }
}

pub fn isqrt(n: i128) -> Option<i128> {
    if n < 0 { return None; }
    let r = (n as f64).sqrt().round() as i128;
    for c in [r - 1, r, r + 1] { if c >= 0 && c.checked_mul(c) == Some(n) { return Some(c); } }
    None
}
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

pub fn eval_bb(op: BB, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    let sx = crate::ir::sext128(x, w);
    let sy = crate::ir::sext128(y, w);
    Some(m & match op {
        BB::Add => x.wrapping_add(y),
        BB::Sub => x.wrapping_sub(y),
        BB::Mul => x.wrapping_mul(y),
        BB::UDiv => { if y == 0 { return None; } x / y }
        BB::SDiv => { if y == 0 { return None; } sx.wrapping_div(sy) as u128 }
        BB::URem => { if y == 0 { return None; } x % y }
        BB::SRem => { if y == 0 { return None; } sx.wrapping_rem(sy) as u128 }
        BB::Shl => if y >= w as u128 { 0 } else { x << y },
        BB::LShr => if y >= w as u128 { 0 } else { x >> y },
        BB::AShr => (sx >> (y.min(w as u128 - 1))) as u128,
        BB::And => x & y,
        BB::Or => x | y,
        BB::Xor => x ^ y,
    })
}
