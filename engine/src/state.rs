//! Execution state, path conditions, substitution, conversion between slots and terms.
use crate::ir::*;
use crate::lemma::{Oracle, Sign};
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Default)]
pub struct V { pub lo: u64, pub hi: u64, pub t: T }
impl V {
    pub fn c(lo: u64) -> V { V { lo, hi: 0, t: 0 } }
    pub fn c128(v: u128) -> V { V { lo: v as u64, hi: (v >> 64) as u64, t: 0 } }
    pub fn f(v: f64) -> V { V::c(v.to_bits()) }
    pub fn u128(&self) -> u128 { self.lo as u128 | (self.hi as u128) << 64 }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub dst: u32,
    pub sp: u64,
    pub normal: u32, // edge to take on return (u32::MAX = fallthrough)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum InKind { Var(u32), Const(f64) }
#[derive(Clone, Copy, Debug)]
pub struct Input { pub id: u32, pub kind: InKind }

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub known: HashMap<T, bool>,
    pub defs: Vec<(u32, T)>,
    pub model: Option<Rc<Vec<f64>>>,
    pub repr: Vec<(T, u64)>,
    pub inputs: Vec<Input>,
    pub dom: HashMap<u32, (i64, i64)>,
    pub bdom: HashMap<u32, [u64; 4]>,
    pub steps: u64,
    pub notes: Vec<String>,
    pub tls: Vec<u64>,
    pub choices: usize,
    pub nonce: u64,
    pub bigap: bool,
}

#[derive(Debug)]
pub enum Stop {
    Fork(T),
    Choice { n: u32, dst: u32, id: u32 },
    Split(u32),
    Dead,
    Panic(String),
    Bug(String),
    Budget,
    Unsup(String),
    Done,
}
pub type X<A> = Result<A, Stop>;

#[derive(Clone)]
pub struct Cfg {
    pub max_steps: u64,
    pub max_paths: u64,
    pub conc_limit: usize,
    pub ob_timeout: u64,
    pub br_timeout: u64,
    pub deadline: std::time::Instant,
    pub verbose: bool,
    pub opaque: bool, pub one_way: bool, pub generic: bool, pub generic_all: bool,
    pub seed: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Cand { pub func: String, pub kind: String, pub id: u32, pub notes: Vec<String>, pub inputs: Vec<f64>, pub msg: String, pub alts: Vec<Vec<f64>> }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub cut_budget: u64,
    pub cut_unsup: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub ob_total: u64,
    pub ob_concrete: u64,
    pub ob_norm: u64,
    /// equal up to a relative error of 1e-9 in the coefficients
    pub ob_round: u64,
    pub ob_smt: u64,
    pub ob_unknown: u64,
    pub ob_tol: u64,
    pub unknown_list: Vec<String>,
    pub reach: BTreeMap<u32, u64>,
    pub asserts: BTreeMap<u32, u64>,
    pub cands: Vec<Cand>,
    pub ncands: u64,
    pub funcs: BTreeSet<usize>,
    pub conc: u64,
    pub timeouts: u64,
    pub seen_cands: HashMap<(u32, String), u32>,
    pub samples: Vec<(Vec<String>, Vec<f64>)>,
}

pub struct Exec {
    pub m: &'static Module,
    pub s: Store,
    pub z: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub fcache: HashMap<u64, T>,
    pub prefix: Vec<u32>,
    pub fname: String,
    pub rng: u64,
    pub fptr: Vec<Option<&'static Func>>,
    pub bi: Vec<u32>,
    pub fseen: Vec<bool>,
    pub hint: Option<Rc<Vec<f64>>>,
    pub hash_consts: Vec<i64>,
}

pub fn snap(v: f64) -> Option<Rat> {
    if v == 0.0 { return Some(Rat::ZERO); }
    if v.fract() == 0.0 && v.abs() < 1e18 { return Some(Rat::int(v as i128)); }
    let a = v.abs();
    if !(1e-30..1e18).contains(&a) { return None; }
    // small dyadic
    for k in 1..=20 { let x = v * (1u64 << k) as f64; if x.fract() == 0.0 && x.abs() < 1e9 { return Some(Rat::new(x as i128, 1i128 << k)); } }
    let close = |c: f64| (c - a).abs() <= a * 5e-16;
    // short decimals
    let mut p = 1i128;
    for k in 1..=18 {
        p *= 10;
        let x = (a * p as f64).round();
        if x >= 1.0 && x < 1e6 && close(x / p as f64) && k <= 18 { return Some(Rat::new(if v < 0.0 { -(x as i128) } else { x as i128 }, p)); }
    }
    if a < 1e-18 { let mut e = 18; while e <= 30 { let p = 10i128.pow(e); let x = (a * p as f64).round(); if x >= 1.0 && x < 1e4 && close(x / p as f64) { return Some(Rat::new(if v < 0.0 { -(x as i128) } else { x as i128 }, p)); } e += 1; } }
    for q in 3..=1000i128 {
        let x = (a * q as f64).round();
        if x >= 1.0 && x < 1e6 && close(x / q as f64) { return Some(Rat::new(if v < 0.0 { -(x as i128) } else { x as i128 }, q)); }
    }
    None
}

impl Exec {
    pub fn from_f64(&mut self, v: f64) -> T {
        if let Some(&t) = self.fcache.get(&v.to_bits()) { return t; }
        let s = &mut self.s;
        let t = if let Some(r) = snap(v) { s.rat(r) } else {
            let a = v.abs();
            let mut found = None;
            // rational multiples of known constants
            let try_mul = |base: f64| -> Option<Rat> {
                for q in 1..=24i128 {
                    let x = (a / base * q as f64).round();
                    if x >= 1.0 && x <= 720.0 && (x / q as f64 * base - a).abs() <= a * 7e-16 { return Some(Rat::new(x as i128, q)); }
                }
                None
            };
            let pi = std::f64::consts::PI;
            let mk: Vec<(f64, u8)> = vec![(pi, 0), (2f64.sqrt(), 1), (3f64.sqrt(), 2), (5f64.sqrt(), 3), (6f64.sqrt(), 4), (std::f64::consts::E, 5), (2f64.ln(), 6), (10f64.ln(), 7), (1.0 / 2f64.ln(), 8), (1.0 / 10f64.ln(), 9), (1.0 / pi, 10), (pi.sqrt(), 11), (1.0 / pi.sqrt(), 12), (3f64.ln(), 13), (pi * pi, 14)];
            for (b, k) in mk {
                if let Some(r) = try_mul(b) {
                    let i = |s: &mut Store, n| s.int(n);
                    let pit = |s: &mut Store| s.func(Fun::Pi, vec![]);
                    let t = match k {
                        0 => pit(s),
                        1 => { let x = i(s, 2); s.func(Fun::Sqrt, vec![x]) }
                        2 => { let x = i(s, 3); s.func(Fun::Sqrt, vec![x]) }
                        3 => { let x = i(s, 5); s.func(Fun::Sqrt, vec![x]) }
                        4 => { let x = i(s, 6); s.func(Fun::Sqrt, vec![x]) }
                        5 => { let x = i(s, 1); s.func(Fun::Exp, vec![x]) }
                        6 | 8 => { let x = i(s, 2); let l = s.func(Fun::Ln, vec![x]); if k == 8 { s.inv(l) } else { l } }
                        7 | 9 => { let x = i(s, 10); let l = s.func(Fun::Ln, vec![x]); if k == 9 { s.inv(l) } else { l } }
                        10 => { let p = pit(s); s.inv(p) }
                        11 | 12 => { let p = pit(s); let l = s.func(Fun::Sqrt, vec![p]); if k == 12 { s.inv(l) } else { l } }
                        13 => { let x = i(s, 3); s.func(Fun::Ln, vec![x]) }
                        _ => { let p = pit(s); s.mul(p, p) }
                    };
                    found = Some(s.scale(t, if v < 0.0 { r.neg() } else { r }));
                    break;
                }
            }
            if found.is_none() && v > 0.0 {
                for k in 2..=60i32 { let l = (k as f64).ln(); for q in [1, -1, 2, -2] { let c = if q > 0 { l * q as f64 } else { 1.0 / l }; if (c - v).abs() <= v * 5e-16 && q != -2 { let kt = s.int(k as i128); let l = s.func(Fun::Ln, vec![kt]); found = Some(if q > 0 { s.scale(l, Rat::int(q as i128)) } else { s.inv(l) }); break; } } if found.is_some() { break; } }
            }
            if found.is_none() && v < 0.0 {
                for k in 2..=60i32 { let l = (k as f64).ln(); if (-l - v).abs() <= a * 5e-16 { let kt = s.int(k as i128); let l = s.func(Fun::Ln, vec![kt]); found = Some(s.neg(l)); break; } }
            }
            if found.is_none() {
                // square and cube roots of small rationals
                let sq = snap(a * a).filter(|r| r.n > 0 && r.n < 100_000 && r.d < 1000);
                if let Some(r) = sq { if (r.to_f64().sqrt() - a).abs() <= a * 4e-16 { let x = s.rat(r); let q = s.func(Fun::Sqrt, vec![x]); found = Some(if v < 0.0 { s.neg(q) } else { q }); } }
            }
            found.unwrap_or_else(|| { let x = s.mk(N::RBig(v.to_bits())); s.atom(x) })
        };
        self.fcache.insert(v.to_bits(), t);
        t
    }
    /// real term -> slot (concrete when it has no free variables)
    pub fn vreal(&mut self, t: T) -> V {
        if let Some(c) = self.s.as_const(t) { return V::f(c.to_f64()); }
        if self.s.dep(t) & (D_COEF | D_REAL | D_BV) == 0 {
            let v = self.s.evalr(t, &[], &mut HashMap::new());
            if !v.is_nan() { return V::f(v); }
        }
        V { lo: 0, hi: 0, t }
    }
    pub fn vbv(&mut self, t: T) -> V {
        if let N::BConst(_, v) = self.s.n(t) { return V::c128(*v); }
        if let N::FBits(x) = *self.s.n(t) { if let Some(c) = self.s.as_const(x) { return V::f(c.to_f64()); } }
        V { lo: 0, hi: 0, t }
    }
    pub fn vbool(&mut self, t: T) -> V { match t { TRUE => V::c(1), FALSE => V::c(0), t => V { lo: 0, hi: 0, t } } }
    /// slot -> real term; None when concrete and not finite
    pub fn real(&mut self, v: V) -> Option<T> {
        if v.t != 0 {
            return Some(match *self.s.n(v.t) { N::FBits(x) => x, _ => v.t });
        }
        let f = f64::from_bits(v.lo);
        if !f.is_finite() { return None; }
        Some(self.from_f64(f))
    }
    pub fn bv(&mut self, v: V, w: u32) -> T {
        if v.t == 0 { return self.s.bconst(w, v.u128()); }
        match self.s.sort(v.t) {
            Sort::Real => self.s.fbits(v.t),
            Sort::Bool => { let (a, b) = (self.s.bconst(w, 1), self.s.bconst(w, 0)); self.s.bite(v.t, a, b) }
            _ => v.t,
        }
    }
    pub fn boolean(&mut self, v: V) -> T {
        if v.t == 0 { return if v.lo & 1 == 1 { TRUE } else { FALSE }; }
        match self.s.sort(v.t) { Sort::Bool => v.t, Sort::Bv(w) => { let one = self.s.bconst(w, 1); self.s.bcmp(BC::Eq, v.t, one) } _ => panic!("boolean of real") }
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn rndf(&mut self) -> f64 { (self.rnd() >> 11) as f64 / (1u64 << 53) as f64 }

    // ---------------------------------------------------------------- path conditions
    pub fn sub_model(&self, st: &State, m: &mut Vec<f64>) {
        let mut memo = HashMap::new();
        for (v, t) in st.defs.iter() {
            let x = match self.s.sort(*t) { Sort::Real => self.s.evalr(*t, m, &mut memo), _ => self.s.evalv(*t, m, &mut HashMap::new()).map(|v| v as f64).unwrap_or(f64::NAN) };
            m[*v as usize] = x;
        }
    }
    pub fn model_ok(&self, st: &State, m: &[f64]) -> bool {
        let mut memo = HashMap::new();
        st.pc.iter().all(|c| self.s.evalb(*c, m, &mut memo) == Some(true))
    }
    /// variables of the state that are still free
    pub fn free_vars(&self, st: &State) -> Vec<u32> {
        let mut v: Vec<u32> = st.inputs.iter().filter_map(|i| if let InKind::Var(x) = i.kind { Some(x) } else { None }).collect();
        v.retain(|x| !st.defs.iter().any(|d| d.0 == *x));
        v
    }
    pub fn fresh_value_in(&mut self, st: &State, v: u32) -> f64 {
        if let (VarKind::Bv(8), Some(d)) = (&self.s.vars[v as usize], st.bdom.get(&v)) {
            let n: u32 = d.iter().map(|x| x.count_ones()).sum();
            if n > 0 { let k = (self.rnd() % n as u64) as usize; return (0..256usize).filter(|i| d[i >> 6] >> (i & 63) & 1 == 1).nth(k).unwrap() as f64; }
        }
        self.fresh_value(v)
    }
    pub fn fresh_value(&mut self, v: u32) -> f64 {
        match self.s.vars[v as usize] {
            VarKind::Coef(lo, hi) => {
                let (lo, hi) = if self.rnd() % 2 == 0 { (lo.max(-8), hi.min(12)) } else { (lo, hi) };
                if hi < lo { return lo as f64; }
                (lo + (self.rnd() % ((hi - lo) as u64 + 1)) as i64) as f64
            }
            VarKind::Real => {
                const C: [f64; 10] = [0.37, 0.71, 1.31, 2.17, 3.73, -0.43, -0.79, -1.37, -2.29, 0.113];
                if self.rnd() % 3 == 0 { self.rndf() * 12.0 - 6.0 } else { C[(self.rnd() % 10) as usize] }
            }
            VarKind::Bv(w) => (self.rnd() & (mask(w.min(53)) as u64)) as f64,
        }
    }
    /// a point satisfying the path condition, optionally `extra`
    /// the value of a variable that makes the term zero, for terms of one variable
    fn point_of(&self, e: T, depth: u32) -> Option<(u32, f64)> {
        let (k, ts) = self.s.parts(e);
        if ts.len() != 1 || depth > 3 { return None; }
        let N::Mono(f) = self.s.n(ts[0].0) else { return None };
        if f.len() != 1 || f[0].1 < 1 { return None; }
        let b = -k.to_f64() / ts[0].1.to_f64();
        match self.s.n(f[0].0) {
            N::RVar(v) if f[0].1 == 1 => Some((*v, b)),
            N::RFn(Fun::Sin | Fun::Tan | Fun::Sinh | Fun::Tanh | Fun::Asin | Fun::Atan | Fun::Asinh | Fun::Atanh | Fun::Sqrt | Fun::Cbrt, a) if b == 0.0 => self.point_of(a[0], depth + 1),
            N::RFn(Fun::Exp | Fun::Ln | Fun::Sqrt, a) if f[0].1 == 1 => {
                let y = match self.s.n(f[0].0) { N::RFn(Fun::Exp, _) => b.ln(), N::RFn(Fun::Ln, _) => b.exp(), _ => b * b };
                let (k, ts) = self.s.parts(a[0]);
                if ts.len() != 1 || !y.is_finite() { return None; }
                let N::Mono(f) = self.s.n(ts[0].0) else { return None };
                if let (1, 1, N::RVar(v)) = (f.len(), f[0].1, self.s.n(f[0].0)) { Some((*v, (y - k.to_f64()) / ts[0].1.to_f64())) } else { None }
            }
            _ => None,
        }
    }
    pub fn find_model(&mut self, st: &State, base: Option<&[f64]>, tries: u32, accept: &mut dyn FnMut(&Exec, &[f64]) -> bool) -> Option<Vec<f64>> {
        let fv = self.free_vars(st);
        let nv = self.s.vars.len();
        let cands: Vec<Rc<Vec<f64>>> = st.model.iter().cloned().collect();
        // point constraints x = value (or a choice of them)
        let mut pts: Vec<(T, Vec<(u32, f64)>)> = vec![];
        for c in &st.pc {
            let ds: Vec<T> = if let N::Or(v) = self.s.n(*c) { v.to_vec() } else { vec![*c] };
            let v: Vec<(u32, f64)> = ds.iter().filter_map(|d| if let N::RCmp(RK::Eq, e) = self.s.n(*d) { self.point_of(*e, 0) } else { None }).collect();
            if !v.is_empty() { pts.push((*c, v)); }
        }
        for k in 0..tries {
            let mut m = vec![f64::NAN; nv];
            let b: Option<&[f64]> = if k % 4 != 3 { base.or(cands.first().map(|x| &x[..])) } else { None };
            for &v in &fv {
                let keep = match k { 0 => 100, _ => if b.is_some() { 50 } else { 0 } };
                let old = b.and_then(|b| b.get(v as usize)).copied().unwrap_or(f64::NAN);
                let x = if !old.is_nan() && (self.rnd() % 100) < keep { old } else if !old.is_nan() && self.rnd() % 4 == 0 && matches!(self.s.vars[v as usize], VarKind::Real) { old + (self.rndf() - 0.5) * 0.3 } else { self.fresh_value_in(st, v) };
                m[v as usize] = x;
            }
            for (c, v) in &pts {
                if self.s.evalb(*c, &m, &mut HashMap::new()) == Some(true) { continue; }
                let (v, x) = v[(self.rnd() % v.len() as u64) as usize];
                m[v as usize] = x;
            }
            self.sub_model(st, &mut m);
            if self.model_ok(st, &m) && accept(self, &m) { return Some(m); }
        }
        None
    }
    pub fn input_values(&self, st: &State, m: &[f64]) -> Vec<f64> {
        st.inputs.iter().map(|i| match i.kind { InKind::Const(c) => c, InKind::Var(v) => { let x = m.get(v as usize).copied().unwrap_or(0.0); if x.is_nan() { 0.0 } else { x } } }).collect()
    }
    /// path conjuncts connected to `t` through shared variables
    pub fn slice(&self, st: &State, t: T) -> Vec<T> {
        let mut vars: HashSet<u32> = HashSet::new();
        let mut tmp = vec![];
        self.s.vars_of(t, &mut tmp, &mut HashSet::new());
        vars.extend(tmp.drain(..));
        let mut cv: Vec<(T, Vec<u32>)> = st.pc.iter().map(|&c| { let mut v = vec![]; self.s.vars_of(c, &mut v, &mut HashSet::new()); (c, v) }).collect();
        let mut out = vec![];
        loop {
            let mut hit = false;
            let mut rest = vec![];
            for (c, v) in cv {
                if v.iter().any(|x| vars.contains(x)) { vars.extend(v.iter()); out.push(c); hit = true; } else { rest.push((c, v)); }
            }
            cv = rest;
            if !hit || cv.is_empty() { break; }
        }
        out
    }
    fn single_byte_var(&self, c: T) -> Option<u32> {
        if self.s.dep(c) != D_BV { return None; }
        let mut v = vec![];
        self.s.vars_of(c, &mut v, &mut HashSet::new());
        v.sort_unstable();
        v.dedup();
        if v.len() == 1 { if let VarKind::Bv(8) = self.s.vars[v[0] as usize] { return Some(v[0]); } }
        None
    }
    fn byte_set(&self, c: T, v: u32) -> Option<[u64; 4]> {
        let mut m = vec![f64::NAN; v as usize + 1];
        let mut r = [0u64; 4];
        for b in 0..256usize {
            m[v as usize] = b as f64;
            if self.s.evalb(c, &m, &mut HashMap::new())? { r[b >> 6] |= 1 << (b & 63); }
        }
        Some(r)
    }
    /// cheap search for a point of the path satisfying c
    fn quick_model(&mut self, st: &State, c: T) -> Option<Vec<f64>> {
        let base = st.model.clone()?;
        if base.len() != self.s.vars.len() { return None; }
        let fv = self.free_vars(st);
        let mut vs = vec![];
        self.s.vars_of(c, &mut vs, &mut HashSet::new());
        vs.retain(|v| fv.contains(v));
        vs.sort_unstable();
        vs.dedup();
        if vs.is_empty() { return None; }
        let try_ = |me: &Exec, m: &mut Vec<f64>| -> bool { me.sub_model(st, m); me.s.evalb(c, m, &mut HashMap::new()) == Some(true) && me.model_ok(st, m) };
        // equation solved for one variable
        if let N::RCmp(_, e) = self.s.n(c).clone() {
            let (_, ts) = self.s.parts(e);
            for (mono, co) in ts.iter() {
                if let N::Mono(f) = self.s.n(*mono).clone() {
                    if f.len() == 1 && f[0].1 == 1 {
                        if let N::RVar(v) = *self.s.n(f[0].0) {
                            if !vs.contains(&v) { continue; }
                            for d in 0..3 {
                                let mut m = base.to_vec();
                                m[v as usize] = 0.0;
                                let r = self.s.evalr(e, &m, &mut HashMap::new());
                                let mut x = -r / co.to_f64();
                                match self.s.vars[v as usize] { VarKind::Coef(lo, hi) => { if x.fract() != 0.0 { x = x.round(); } if d > 0 { x += if d == 1 { 1.0 } else { -1.0 } } if x < lo as f64 || x > hi as f64 { continue; } } _ => if d > 0 { x += if d == 1 { 0.71 } else { -0.71 } } }
                                if !x.is_finite() { continue; }
                                m[v as usize] = x;
                                if try_(self, &mut m) { return Some(m); }
                            }
                        }
                    }
                }
            }
            if let N::RCmp(RK::Eq, _) = self.s.n(c) { return None; }
        }
        for k in 0..6 {
            let mut m = base.to_vec();
            for &v in &vs { if k % 2 == 0 || self.rnd() % 2 == 0 { m[v as usize] = self.fresh_value_in(st, v); } }
            if try_(self, &mut m) { return Some(m); }
        }
        None
    }
    pub fn feasible(&mut self, st: &State, c: T) -> bool {
        if c == TRUE { return true; }
        if c == FALSE { return false; }
        if let Some(v) = self.single_byte_var(c) {
            if let Some(set) = self.byte_set(c, v) {
                let d = st.bdom.get(&v).copied().unwrap_or([u64::MAX; 4]);
                if (0..4).all(|i| d[i] & set[i] == 0) { return false; }
                // other constraints may still exclude it
                let others = st.pc.iter().any(|&p| self.single_byte_var(p) != Some(v) && { let mut vs = vec![]; self.s.vars_of(p, &mut vs, &mut HashSet::new()); vs.contains(&v) });
                if !others { return true; }
            }
        }
        if let Some(m) = self.quick_model(st, c) { self.hint = Some(Rc::new(m)); return true; }
        let mut a = self.slice(st, c);
        a.push(c);
        !matches!(self.z.check(&self.s, &a, true, false, self.cfg.br_timeout), Res::Unsat)
    }
    /// truth value of a condition on the path, if forced
    pub fn forced(&mut self, st: &State, c: T) -> Option<bool> {
        if c == TRUE { return Some(true); }
        if c == FALSE { return Some(false); }
        if let Some(&b) = st.known.get(&c) { return Some(b); }
        let mv = st.model.as_ref().and_then(|m| self.s.evalb(c, m, &mut HashMap::new()));
        let nc = self.s.not(c);
        match mv {
            Some(true) => if self.feasible(st, nc) { None } else { Some(true) },
            Some(false) => if self.feasible(st, c) { None } else { Some(false) },
            None => { if !self.feasible(st, c) { return Some(false); } if !self.feasible(st, nc) { return Some(true); } None }
        }
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> X<bool> {
        if c == TRUE { return Ok(true); }
        if c == FALSE { return Ok(false); }
        if let Some(&b) = st.known.get(&c) { return Ok(b); }
        if self.cfg.one_way && (self.s.dep(c) & D_REAL != 0 || self.s.dep(c) & (D_COEF | D_BV) == 0) {
            // branches on values follow one direction (programs, not values, are the subject)
            if st.model.as_ref().is_none_or(|m| m.len() != self.s.vars.len()) { self.refresh_model(st); }
            let b = st.model.clone().and_then(|m| self.s.evalb(c, &m, &mut HashMap::new())).unwrap_or(false);
            let nc = self.s.not(c);
            st.known.insert(c, b);
            st.known.insert(nc, !b);
            return Ok(b);
        }
        match self.forced(st, c) {
            Some(b) => { let nc = self.s.not(c); st.known.insert(c, b); st.known.insert(nc, !b); Ok(b) }
            None => Err(Stop::Fork(c)),
        }
    }
    pub fn apply_subst(&mut self, st: &mut State, v: u32, by: T) -> bool {
        let mut map = HashMap::new();
        map.insert(v, by);
        let mut memo = HashMap::new();
        let mut regs = std::mem::take(&mut st.regs);
        for r in regs.iter_mut() {
            if r.t != 0 {
                let n = self.s.subst(r.t, &map, &mut memo);
                if n != r.t {
                    *r = match self.s.sort(n) { Sort::Bool => self.vbool(n), Sort::Real => self.vreal(n), _ => self.vbv(n) };
                }
            }
        }
        st.regs = regs;
        {
            let s = std::cell::RefCell::new(&mut self.s);
            let memo = std::cell::RefCell::new(&mut memo);
            st.mem.map_syms(&mut |t| s.borrow_mut().subst(t, &map, &mut memo.borrow_mut()), &mut |n| {
                let s = s.borrow();
                match s.sort(n) {
                    Sort::Bool => match n { TRUE => Some(1), FALSE => Some(0), _ => None },
                    Sort::Real => {
                        if let Some(c) = s.as_const(n) { return Some(c.to_f64().to_bits() as u128); }
                        if s.dep(n) & (D_COEF | D_REAL | D_BV) == 0 { let v = s.evalr(n, &[], &mut HashMap::new()); if !v.is_nan() { return Some(v.to_bits() as u128); } }
                        None
                    }
                    _ => s.bval(n),
                }
            });
        }
        let pc = std::mem::take(&mut st.pc);
        let mut ok = true;
        for c in pc {
            let n = self.s.subst(c, &map, &mut memo);
            if n == FALSE { ok = false; }
            if n != TRUE { if let N::And(v) = self.s.n(n).clone() { st.pc.extend(v.iter()); } else { st.pc.push(n); } }
        }
        let known = std::mem::take(&mut st.known);
        for (c, b) in known {
            let n = self.s.subst(c, &map, &mut memo);
            if n != TRUE && n != FALSE { st.known.insert(n, b); } else if (n == TRUE) != b { ok = false; }
        }
        for r in st.repr.iter_mut() { r.0 = self.s.subst(r.0, &map, &mut memo); }
        // a value already hashed through a representative has become another value: its hashes would not agree
        let mut clash = false;
        for i in 0..st.repr.len() {
            let (t, b) = st.repr[i];
            clash |= match self.s.as_const(t) { Some(c) => c.to_f64().to_bits() != b, None => st.repr[..i].iter().any(|r| r.0 == t && r.1 != b) };
        }
        if clash && ok { *self.st.cut_unsup.entry("coincidence with a hashed representative".into()).or_insert(0) += 1; ok = false; }
        for d in st.defs.iter_mut() { d.1 = self.s.subst(d.1, &map, &mut memo); }
        // defs are evaluated in order: the new one must not depend on earlier ones (they are substituted away already)
        st.defs.push((v, by));
        ok
    }
    /// add a condition; false when it is contradictory
    /// narrow the domain of a coefficient by known disequalities; pins it when one value is left
    fn trim_dom(&mut self, st: &mut State, v: u32) -> Option<bool> {
        let VarKind::Coef(lo, hi) = self.s.vars[v as usize] else { return Some(true) };
        let mut d = *st.dom.get(&v).unwrap_or(&(lo, hi));
        let vt = self.s.rvar(v);
        loop {
            if d.0 > d.1 { return None; }
            let l = self.s.int(d.0 as i128);
            let el = self.s.rcmp(RK::Eq, vt, l);
            if st.known.get(&el) == Some(&false) { d.0 += 1; continue; }
            let h = self.s.int(d.1 as i128);
            let eh = self.s.rcmp(RK::Eq, vt, h);
            if st.known.get(&eh) == Some(&false) { d.1 -= 1; continue; }
            break;
        }
        st.dom.insert(v, d);
        if d.0 == d.1 { let t = self.s.int(d.0 as i128); return Some(self.apply_subst(st, v, t)); }
        Some(true)
    }
    pub fn add_cond(&mut self, st: &mut State, c: T) -> bool {
        if c == TRUE { return true; }
        if c == FALSE { return false; }
        if let Some(&b) = st.known.get(&c) { if !b { return false; } }
        if let N::And(v) = self.s.n(c).clone() {
            let mut rest: Vec<T> = v.to_vec();
            // substitutions made by one conjunct must reach the others
            while let Some(x) = rest.pop() {
                let nd = st.defs.len();
                if !self.add_cond(st, x) { return false; }
                for k in nd..st.defs.len() {
                    let (v, by) = st.defs[k];
                    let mut map = HashMap::new();
                    map.insert(v, by);
                    let mut memo = HashMap::new();
                    for y in rest.iter_mut() { *y = self.s.subst(*y, &map, &mut memo); }
                }
            }
            return true;
        }
        let nc = self.s.not(c);
        st.known.insert(c, true);
        st.known.insert(nc, false);
        st.pc.push(c);
        // model upkeep
        let keep = match &st.model { Some(m) => self.s.evalb(c, m, &mut HashMap::new()) == Some(true), None => false };
        if !keep { st.model = None; }
        let mut ok = true;
        match self.s.n(c).clone() {
            N::RCmp(RK::Eq, e) => {
                let (k, ts) = self.s.parts(e);
                // candidate variable
                let mut best: Option<(u32, T, u8)> = None;
                for (m, co) in ts.iter() {
                    if let N::Mono(f) = self.s.n(*m).clone() {
                        if f.len() == 1 && f[0].1 == 1 {
                            if let N::RVar(v) = *self.s.n(f[0].0) {
                                // v = -(e - co*v)/co
                                let vt = self.s.rvar(v);
                                let sv = self.s.scale(vt, *co);
                                let r = self.s.sub(e, sv);
                                let r = self.s.scale(r, co.inv().neg());
                                let mut vs = vec![];
                                self.s.vars_of(r, &mut vs, &mut HashSet::new());
                                if vs.contains(&v) { continue; }
                                let info = self.s.info[r as usize];
                                let rank = match self.s.vars[v as usize] {
                                    VarKind::Coef(..) => { if !info.int { continue; } if vs.is_empty() { 0 } else { 2 } }
                                    _ => { if self.s.dep(r) & D_FN != 0 { 3 } else { 1 } }
                                };
                                if best.map(|b| rank < b.2).unwrap_or(true) { best = Some((v, r, rank)); }
                            }
                        }
                    }
                }
                let _ = k;
                if let Some((v, r, _)) = best {
                    st.pc.pop();
                    if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                        let (a, b) = (self.s.int(lo as i128), self.s.int(hi as i128));
                        let c1 = self.s.rcmp(RK::Le, a, r);
                        let c2 = self.s.rcmp(RK::Le, r, b);
                        if c1 == FALSE || c2 == FALSE { return false; }
                        if c1 != TRUE { st.pc.push(c1); }
                        if c2 != TRUE { st.pc.push(c2); }
                    }
                    ok = self.apply_subst(st, v, r);
                }
            }
            N::RCmp(RK::Le, e) | N::RCmp(RK::Lt, e) => {
                // e <= 0 and -e <= 0 is e = 0
                if matches!(self.s.n(c), N::RCmp(RK::Le, _)) {
                    let me = self.s.neg(e);
                    let mc = self.s.mk(N::RCmp(RK::Le, me));
                    if st.pc.contains(&mc) {
                        st.pc.pop();
                        st.pc.retain(|x| *x != mc);
                        let eq = self.s.rcmp0(RK::Eq, e);
                        return self.add_cond(st, eq);
                    }
                }
                let (k, ts) = self.s.parts(e);
                // integer variable against an irrational constant
                if ts.len() == 2 || ts.len() == 3 {
                    let mut var = None;
                    let mut kk = k.to_f64();
                    let mut bad = false;
                    for (m, co) in ts.iter() {
                        let N::Mono(f) = self.s.n(*m).clone() else { bad = true; break };
                        if let (1, 1, N::RVar(v)) = (f.len(), f[0].1, self.s.n(f[0].0).clone()) {
                            if matches!(self.s.vars[v as usize], VarKind::Coef(..)) && var.is_none() { var = Some((v, *co)); continue; }
                        }
                        let mut vs = vec![];
                        self.s.vars_of(*m, &mut vs, &mut HashSet::new());
                        if !vs.is_empty() { bad = true; break; }
                        kk += co.to_f64() * self.s.evalr(*m, &[], &mut HashMap::new());
                    }
                    if let (false, Some((v, co))) = (bad, var) {
                        if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                            let b = -kk / co.to_f64();
                            if b.is_finite() && b.abs() < 1e9 && (b - b.round()).abs() > 1e-5 {
                                let d = st.dom.entry(v).or_insert((lo, hi));
                                if co.n > 0 { d.1 = d.1.min(b.floor() as i64); } else { d.0 = d.0.max(b.ceil() as i64); }
                                if d.0 > d.1 { return false; }
                                match self.trim_dom(st, v) { None => return false, Some(o) => ok = o }
                            }
                        }
                    }
                }
                if ts.len() == 1 {
                    if let N::Mono(f) = self.s.n(ts[0].0).clone() {
                        if f.len() == 1 && f[0].1 == 1 {
                            if let N::RVar(v) = *self.s.n(f[0].0) {
                                if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                                    let d = st.dom.entry(v).or_insert((lo, hi));
                                    let b = k.neg().mul(ts[0].1.inv());
                                    let strict = matches!(self.s.n(c), N::RCmp(RK::Lt, _));
                                    if ts[0].1.n > 0 { let mut u = b.floor(); if strict && b.d == 1 { u -= 1; } d.1 = d.1.min(u as i64); } else { let mut l = -(b.neg().floor()); if strict && b.d == 1 { l += 1; } d.0 = d.0.max(l as i64); }
                                    if d.0 > d.1 { return false; }
                                    match self.trim_dom(st, v) { None => return false, Some(o) => ok = o }
                                }
                            }
                        }
                    }
                }
            }
            N::Not(x) => if let N::RCmp(RK::Eq, e) = *self.s.n(x) {
                let (k, ts) = self.s.parts(e);
                if ts.len() == 1 {
                    if let N::Mono(f) = self.s.n(ts[0].0).clone() {
                        if f.len() == 1 && f[0].1 == 1 {
                            if let N::RVar(v) = *self.s.n(f[0].0) {
                                if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                                    let b = k.neg().mul(ts[0].1.inv());
                                    let _ = (b, lo, hi);
                                    match self.trim_dom(st, v) { None => return false, Some(o) => ok = o }
                                }
                            }
                        }
                    }
                }
            },
            N::BCmp(BC::Eq, a, b) => {
                for (p, q) in [(a, b), (b, a)] {
                    if let (N::BVar(v, _), Some(_)) = (self.s.n(p).clone(), self.s.bval(q)) { st.pc.pop(); ok = self.apply_subst(st, v, q); break; }
                }
                if let (N::BVar(v, w1), N::BVar(_, w2)) = (self.s.n(a).clone(), self.s.n(b).clone()) {
                    if w1 == w2 { let d = st.bdom.remove(&v); st.pc.pop(); ok = self.apply_subst(st, v, b); if let (Some(d), N::BVar(u, _)) = (d, self.s.n(b).clone()) { let e = st.bdom.entry(u).or_insert([u64::MAX; 4]); for i in 0..4 { e[i] &= d[i]; } } }
                }
            }
            _ => {}
        }
        if !ok { return false; }
        if let Some(v) = self.single_byte_var(c) {
            if st.pc.last() == Some(&c) {
                if let Some(set) = self.byte_set(c, v) {
                    let e = st.bdom.entry(v).or_insert([u64::MAX; 4]);
                    for i in 0..4 { e[i] &= set[i]; }
                    let n: u32 = e.iter().map(|x| x.count_ones()).sum();
                    if n == 0 { return false; }
                    if n == 1 {
                        let i = (0..4).find(|&i| e[i] != 0).unwrap();
                        let val = i as u64 * 64 + e[i].trailing_zeros() as u64;
                        let t = self.s.bconst(8, val as u128);
                        if !self.apply_subst(st, v, t) { return false; }
                    }
                }
            }
        }
        true
    }
    pub fn refresh_model(&mut self, st: &mut State) {
        if st.model.is_some() && st.model.as_ref().unwrap().len() == self.s.vars.len() { return; }
        if let Some(m) = &st.model {
            // extend to new variables
            let mut m: Vec<f64> = m.to_vec();
            while m.len() < self.s.vars.len() { m.push(f64::NAN); }
            let fv = self.free_vars(st);
            for v in fv { if m[v as usize].is_nan() { m[v as usize] = self.fresh_value_in(st, v); } }
            st.model = Some(Rc::new(m));
            return;
        }
        if let Some(h) = self.hint.take() { if h.len() == self.s.vars.len() && self.model_ok(st, &h) { st.model = Some(h); return; } }
        let old = None;
        if let Some(m) = self.find_model(st, old, 40, &mut |_, _| true) { st.model = Some(Rc::new(m)); return; }
        let a = st.pc.clone();
        if let Res::Sat(vals) = self.z.check(&self.s, &a, true, true, self.cfg.br_timeout * 2) {
            let mut m = vec![f64::NAN; self.s.vars.len()];
            for (v, x) in vals { m[v as usize] = x; }
            let fv = self.free_vars(st);
            for v in fv { if m[v as usize].is_nan() { m[v as usize] = self.fresh_value_in(st, v); } }
            self.sub_model(st, &mut m);
            if self.model_ok(st, &m) { st.model = Some(Rc::new(m)); } else {
                let base = m.clone();
                if let Some(m) = self.find_model(st, Some(&base), 60, &mut |_, _| true) { st.model = Some(Rc::new(m)); }
            }
        }
    }
    /// pin a bit-vector (or integer-valued real) to one concrete value on this path
    pub fn concretize(&mut self, st: &mut State, t: T) -> X<u128> {
        if let Some(v) = self.s.bval(t) { return Ok(v); }
        self.st.conc += 1;
        if let N::FBits(x) = *self.s.n(t) { return self.bits_of(st, x).map(|b| b as u128); }
        match self.s.sort(t) { Sort::Bool => return self.decide(st, t).map(|b| b as u128), _ => {} }
        if let N::BReal(r, w) = *self.s.n(t) {
            let v = self.concretize_real(st, r)?;
            return Ok((v as i128 as u128) & mask(w));
        }
        if let N::BIte(c, a, b) = *self.s.n(t) { let d = self.decide(st, c)?; return self.concretize(st, if d { a } else { b }); }
        // case distinctions inside the term are decided first
        if let Some(i) = self.find_ite(t, &mut HashSet::new()) {
            if let N::BIte(c, a, b) = *self.s.n(i) {
                let d = self.decide(st, c)?;
                let mut memo = HashMap::new();
                memo.insert(i, if d { a } else { b });
                let t2 = self.s.subst(t, &HashMap::new(), &mut memo);
                if t2 != t { return self.concretize(st, t2); }
            }
        }
        // byte variables first: pin the variables themselves
        let mut vs = vec![];
        self.s.vars_of(t, &mut vs, &mut HashSet::new());
        vs.sort_unstable();
        vs.dedup();
        if let Some(&v) = vs.first() {
            if let VarKind::Bv(w) = self.s.vars[v as usize] {
                let x = if w != 8 { self.refresh_model(st); st.model.as_ref().and_then(|m| m.get(v as usize).copied()).filter(|x| !x.is_nan()).map(|x| vec![x as u128]) } else {
                    let d = st.bdom.get(&v).copied().unwrap_or([u64::MAX; 4]);
                    Some((0..256u128).filter(|i| d[(i >> 6) as usize] >> (i & 63) & 1 == 1).collect::<Vec<_>>())
                };
                for x in x.unwrap_or_default() {
                    let vt = self.s.mk(N::BVar(v, w));
                    let cv = self.s.bconst(w, x);
                    let c = self.s.bcmp(BC::Eq, vt, cv);
                    if self.decide(st, c)? {
                        let mut map = HashMap::new();
                        map.insert(v, cv);
                        let t2 = self.s.subst(t, &map, &mut HashMap::new());
                        if t2 == t { return Err(Stop::Unsup("concretize: variable pinned but term still symbolic".into())); }
                        return self.concretize(st, t2);
                    }
                }
                return Err(if w == 8 { Stop::Dead } else { Stop::Unsup("concretize: no model".into()) });
            }
        }
        self.refresh_model(st);
        if let Some(&v) = vs.first() {
            if let VarKind::Coef(..) = self.s.vars[v as usize] { let r = self.s.rvar(v); self.concretize_real(st, r)?; }
        }
        Err(Stop::Unsup(format!("concretize {}", self.s.show(t).chars().take(120).collect::<String>())))
    }
    fn find_ite(&self, t: T, seen: &mut HashSet<T>) -> Option<T> {
        if !seen.insert(t) || self.s.dep(t) & D_BV == 0 { return None; }
        match *self.s.n(t) {
            N::BIte(..) => Some(t),
            N::BBin(_, a, b) | N::BCat(a, b) => self.find_ite(a, seen).or_else(|| self.find_ite(b, seen)),
            N::BZext(a, _) | N::BSext(a, _) | N::BExt(a, _, _) => self.find_ite(a, seen),
            _ => None,
        }
    }
    pub fn concretize_real(&mut self, st: &mut State, r: T) -> X<f64> {
        if let Some(c) = self.s.as_const(r) { return Ok(c.to_f64()); }
        if self.s.dep(r) & D_REAL != 0 { return Err(Stop::Unsup(format!("integer conversion of {}", self.s.show(r).chars().take(100).collect::<String>()))); }
        self.refresh_model(st);
        if st.model.is_none() {
            // enumerate a small domain without a model
            let mut vs = vec![];
            self.s.vars_of(r, &mut vs, &mut HashSet::new());
            vs.sort_unstable();
            vs.dedup();
            if let [v] = vs[..] { if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                let (lo, hi) = *st.dom.get(&v).unwrap_or(&(lo, hi));
                let vt = self.s.rvar(v);
                if hi - lo <= 40 {
                    for x in lo..=hi {
                        let xt = self.s.int(x as i128);
                        let c = self.s.rcmp(RK::Eq, vt, xt);
                        if self.decide(st, c)? { let mut m = vec![f64::NAN; self.s.vars.len()]; m[v as usize] = x as f64; return Ok(self.s.evalr(r, &m, &mut HashMap::new())); }
                    }
                    return Err(Stop::Dead);
                }
            } }
        }
        let Some(m) = st.model.clone() else { { if std::env::var("SYMX_V").is_ok() { eprintln!("no model for {} pc {}", self.s.show(r), st.pc.iter().map(|x| self.s.show(*x)).collect::<Vec<_>>().join(" & ")); } return Err(Stop::Unsup("concretize_real: no model".into())) } };
        // prefer pinning through the term
        let v = self.s.evalr(r, &m, &mut HashMap::new());
        if v.is_nan() { return Err(Stop::Unsup("concretize_real: value".into())); }
        let vt = self.from_f64(v);
        let c = self.s.rcmp(RK::Eq, r, vt);
        if self.decide(st, c)? { return Ok(v); }
        st.model = None;
        self.refresh_model(st);
        let Some(m) = st.model.clone() else { { if std::env::var("SYMX_V").is_ok() { eprintln!("no model for {} pc {}", self.s.show(r), st.pc.iter().map(|x| self.s.show(*x)).collect::<Vec<_>>().join(" & ")); } return Err(Stop::Unsup("concretize_real: no model".into())) } };
        let v = self.s.evalr(r, &m, &mut HashMap::new());
        let vt = self.from_f64(v);
        let c = self.s.rcmp(RK::Eq, r, vt);
        match self.decide(st, c)? { true => Ok(v), false => Err(Stop::Unsup("concretize_real: stale model".into())) }
    }
    /// IEEE bits used for hashing/total order: equality classes are decided, then a representative is used
    pub fn bits_of(&mut self, st: &mut State, t: T) -> X<u64> {
        if let Some(c) = self.s.as_const(t) { return Ok(c.to_f64().to_bits()); }
        if let Some(r) = st.repr.iter().find(|r| r.0 == t) { return Ok(r.1); }
        if self.cfg.generic {
            // a term over a real input hashes like no other value (coincidences are not explored)
            let (mut vs, mut seen) = (vec![], std::collections::HashSet::new());
            self.s.vars_of(t, &mut vs, &mut seen);
            if !vs.is_empty() && (self.cfg.generic_all || vs.iter().any(|v| matches!(self.s.vars[*v as usize], VarKind::Real))) {
                st.nonce += 1;
                let b = (-7919.25 - st.nonce as f64 * 13.5).to_bits();
                st.repr.push((t, b));
                return Ok(b);
            }
        }
        // small domains are enumerated
        let (mut vs, mut seen) = (vec![], std::collections::HashSet::new());
        self.s.vars_of(t, &mut vs, &mut seen);
        vs.sort_unstable();
        vs.dedup();
        if let [v] = vs[..] { if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] { if hi - lo <= 12 && self.s.dep(t) & D_REAL == 0 { return Ok(self.concretize_real(st, t)?.to_bits()); } } }
        let consts = self.hash_consts.clone();
        for k in consts {
            let kt = self.s.int(k as i128);
            let c = self.s.rcmp(RK::Eq, t, kt);
            if self.decide(st, c)? { return Ok((k as f64).to_bits()); }
        }
        let rep = st.repr.clone();
        for (u, b) in rep {
            if self.cfg.generic && f64::from_bits(b).fract() != 0.0 && f64::from_bits(b) < -7900.0 { continue; }
            let c = self.s.rcmp(RK::Eq, t, u);
            if self.decide(st, c)? { st.repr.push((t, b)); return Ok(b); }
        }
        self.refresh_model(st);
        let mut v = st.model.as_ref().map(|m| self.s.evalr(t, m, &mut HashMap::new())).unwrap_or(f64::NAN);
        if v.is_nan() || v == 0.0 || st.repr.iter().any(|r| r.1 == v.to_bits()) || self.hash_consts.iter().any(|k| *k as f64 == v) {
            st.nonce += 1;
            v = 7919.25 + st.nonce as f64 * 13.5;
        }
        st.repr.push((t, v.to_bits()));
        Ok(v.to_bits())
    }
}

pub struct PathOracle<'a> {
    pub pc: &'a [T],
    pub z: &'a mut Solver,
    pub timeout: u64,
    pub memo: HashMap<T, Sign>,
    pub cmemo: HashMap<T, Option<bool>>,
}
impl<'a> PathOracle<'a> {
    fn unsat(&mut self, s: &Store, c: T) -> bool {
        if c == FALSE { return true; }
        if c == TRUE { return false; }
        let mut a = self.pc.to_vec();
        a.push(c);
        matches!(self.z.check(s, &a, false, false, self.timeout), Res::Unsat)
    }
}
impl<'a> Oracle for PathOracle<'a> {
    fn sign(&mut self, s: &mut Store, t: T) -> Sign {
        if let Some(r) = self.memo.get(&t) { return *r; }
        let z = s.int(0);
        let neg = s.rcmp0(RK::Lt, t);
        let pos = s.rcmp(RK::Lt, z, t);
        let le = s.rcmp0(RK::Le, t);
        let ge = s.rcmp(RK::Le, z, t);
        let known = |c: T| self.pc.contains(&c);
        let r = if known(pos) || known(ge) { Sign::Pos } else if known(neg) || known(le) { Sign::Neg } else if self.unsat(s, neg) { Sign::Pos } else if self.unsat(s, pos) { Sign::Neg } else { Sign::Unknown };
        self.memo.insert(t, r);
        r
    }
    fn assumed(&self, c: T) -> bool { self.pc.contains(&c) }
    fn cond(&mut self, s: &mut Store, c: T) -> Option<bool> {
        if let Some(r) = self.cmemo.get(&c) { return *r; }
        let nc = s.not(c);
        let r = if self.pc.contains(&c) { Some(true) } else if self.pc.contains(&nc) { Some(false) } else if self.unsat(s, nc) { Some(true) } else if self.unsat(s, c) { Some(false) } else { None };
        self.cmemo.insert(c, r);
        r
    }
}
