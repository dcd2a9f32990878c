//! Reference semantics: the value and the first derivative an expression denotes, written
//! independently of the library (from the mathematical definitions) over the public `view()`.
use super::prim::*;
use symb_anafis::Expr;
use symb_anafis::visitor::ExprView;

#[derive(Clone, Copy)]
pub struct Env { pub x: f64, pub y: f64, pub z: f64, pub w: f64 }
impl Env {
    pub fn any() -> Env { Env { x: real(), y: real(), z: real(), w: real() } }
    pub fn get(&self, n: &str) -> Option<f64> {
        match n {
            "x" => Some(self.x),
            "y" => Some(self.y),
            "z" => Some(self.z),
            "w" => Some(self.w),
            "pi" | "PI" | "Pi" | "π" => Some(std::f64::consts::PI),
            "e" | "E" => Some(std::f64::consts::E),
            "sigma_x" => Some(uf(SIGMA, 0.0, 0.0)),
            "sigma_y" => Some(uf(SIGMA, 1.0, 0.0)),
            "sigma_z" => Some(uf(SIGMA, 2.0, 0.0)),
            "cxy" => Some(uf(SIGMA, 3.0, 0.0)),
            "cxx" => Some(uf(SIGMA, 4.0, 0.0)),
            _ => None,
        }
    }
}

// ids of uninterpreted special functions
pub const ERF: u32 = 1;
pub const GAMMA: u32 = 3;
pub const POLYGAMMA: u32 = 4;
pub const BETA: u32 = 5;
pub const BJ: u32 = 6;
pub const BY: u32 = 7;
pub const BI: u32 = 8;
pub const BK: u32 = 9;
pub const LAMBERTW: u32 = 10;
pub const ELLK: u32 = 11;
pub const ELLE: u32 = 12;
pub const ZETAD: u32 = 13;
pub const HERMITE: u32 = 14;
/// symbolic standard deviations and covariances
pub const SIGMA: u32 = 50;
/// opaque functions uu, vv (one argument) and hh (two); + 10 a + 100 b: derivative of order a by the first and b by the second argument
pub const OPAQUE: u32 = 200;

pub fn acot(x: f64) -> f64 {
    let h = std::f64::consts::FRAC_PI_2;
    h - x.atan()
}
/// physicists' Hermite polynomial
pub fn hermite(k: i32, x: f64) -> f64 {
    if k <= 0 { return 1.0; }
    let (mut a, mut b) = (1.0, 2.0 * x);
    for i in 1..k { let c = 2.0 * x * b - 2.0 * i as f64 * a; a = b; b = c; }
    b
}
/// value of a built-in function of one argument; None when the name is not known here
pub fn f1(name: &str, u: f64) -> Option<f64> {
    Some(match name {
        "sin" => u.sin(),
        "cos" => u.cos(),
        "tan" => u.sin() / u.cos(),
        "cot" => u.cos() / u.sin(),
        "sec" => 1.0 / u.cos(),
        "csc" => 1.0 / u.sin(),
        "asin" => u.asin(),
        "acos" => u.acos(),
        "atan" => u.atan(),
        "acot" => acot(u),
        "asec" => (1.0 / u).acos(),
        "acsc" => (1.0 / u).asin(),
        "sinh" => u.sinh(),
        "cosh" => u.cosh(),
        "tanh" => u.sinh() / u.cosh(),
        "coth" => u.cosh() / u.sinh(),
        "sech" => 1.0 / u.cosh(),
        "csch" => 1.0 / u.sinh(),
        "asinh" => u.asinh(),
        "acosh" => u.acosh(),
        "atanh" => u.atanh(),
        "acoth" => (1.0 / u).atanh(),
        "asech" => (1.0 / u).acosh(),
        "acsch" => (1.0 / u).asinh(),
        "exp" => u.exp(),
        "ln" => u.ln(),
        "log10" => u.log10(),
        "log2" => u.log2(),
        "sqrt" => u.sqrt(),
        "cbrt" => u.cbrt(),
        "abs" => u.abs(),
        "signum" => if u > 0.0 { 1.0 } else if u < 0.0 { -1.0 } else { 0.0 },
        "floor" => u.floor(),
        "ceil" => u.ceil(),
        "round" => u.round(),
        "sinc" => if u == 0.0 { 1.0 } else { u.sin() / u },
        "erf" => uf(ERF, u, 0.0),
        "erfc" => 1.0 - uf(ERF, u, 0.0),
        "gamma" => uf(GAMMA, u, 0.0),
        "digamma" => uf(POLYGAMMA, 0.0, u),
        "trigamma" => uf(POLYGAMMA, 1.0, u),
        "tetragamma" => uf(POLYGAMMA, 2.0, u),
        "lambertw" => uf(LAMBERTW, u, 0.0),
        "elliptic_k" => uf(ELLK, u, 0.0),
        "elliptic_e" => uf(ELLE, u, 0.0),
        "zeta" => uf(ZETAD, 0.0, u),
        // opaque functions of the harnesses
        "uu" => uf(OPAQUE, u, 0.0),
        "vv" => uf(OPAQUE + 1, u, 0.0),
        // user functions of C19
        "g1" => uf(OPAQUE, u, 0.0) + u,
        _ => return None,
    })
}
pub fn f2(name: &str, a: f64, b: f64) -> Option<f64> {
    Some(match name {
        "atan2" => a.atan2(b),
        "log" => if a <= 0.0 || a == 1.0 || b <= 0.0 { f64::NAN } else { b.ln() / a.ln() },
        "pow" => a.powf(b),
        "beta" => uf(GAMMA, a, 0.0) * uf(GAMMA, b, 0.0) / uf(GAMMA, a + b, 0.0),
        "besselj" => uf(BJ, a, b),
        "bessely" => uf(BY, a, b),
        "besseli" => uf(BI, a, b),
        "besselk" => uf(BK, a, b),
        "polygamma" => uf(POLYGAMMA, a, b),
        "zeta_deriv" => uf(ZETAD, a, b),
        "hermite" => hermite(a as i32, b),
        "hh" => uf(OPAQUE + 2, a, b),
        "g2" => a * a - 2.0 * b + a * b,
        _ => return None,
    })
}
fn unknown(what: &str) -> ! { note("unknown-in-reference"); note(what); check(false, 9999); skip() }

/// value of an expression; not finite wherever a subexpression is undefined
pub fn val(e: &Expr, env: &Env) -> f64 {
    match e.view() {
        ExprView::Number(n) => n,
        ExprView::Symbol(s) => match env.get(&s) { Some(v) => v, None => unknown(&s) },
        ExprView::Function { name, args } => {
            let v: Vec<f64> = args.iter().map(|a| val(a, env)).collect();
            if v.iter().any(|x| !fin(*x)) { return f64::NAN; }
            let r = match v.len() { 1 => f1(name, v[0]), 2 => f2(name, v[0], v[1]), _ => None };
            match r { Some(r) => r, None => unknown(name) }
        }
        ExprView::Sum(t) => { let mut s = 0.0; for x in t.iter() { s += val(x, env); } s }
        ExprView::Product(t) => { let mut s = 1.0; for x in t.iter() { s *= val(x, env); } s }
        ExprView::Div(a, b) => { let (a, b) = (val(a, env), val(b, env)); if fin(a) && fin(b) { a / b } else { f64::NAN } }
        ExprView::Pow(a, b) => { let (a, b) = (val(a, env), val(b, env)); if fin(a) && fin(b) { a.powf(b) } else { f64::NAN } }
        ExprView::Derivative { .. } => super::jet::jet(e, env, &[]).v(),
    }
}

/// value and derivative; `dep` says whether the variable occurs
#[derive(Clone, Copy)]
pub struct D { pub v: f64, pub d: f64, pub dep: bool }
pub fn konst(v: f64) -> D { D { v, d: 0.0, dep: false } }
impl D {
    pub fn add(self, o: D) -> D { D { v: self.v + o.v, d: if self.dep && o.dep { self.d + o.d } else if self.dep { self.d } else { o.d }, dep: self.dep || o.dep } }
    pub fn mul(self, o: D) -> D {
        let d = match (self.dep, o.dep) { (true, true) => self.d * o.v + self.v * o.d, (true, false) => self.d * o.v, (false, true) => self.v * o.d, _ => 0.0 };
        D { v: self.v * o.v, d, dep: self.dep || o.dep }
    }
    pub fn div(self, o: D) -> D {
        let d = match (self.dep, o.dep) { (true, true) => (self.d * o.v - self.v * o.d) / (o.v * o.v), (true, false) => self.d / o.v, (false, true) => -(self.v * o.d) / (o.v * o.v), _ => 0.0 };
        D { v: self.v / o.v, d, dep: self.dep || o.dep }
    }
    pub fn pow(self, o: D) -> D {
        if !fin(self.v) || !fin(o.v) { return D { v: f64::NAN, d: f64::NAN, dep: true }; }
        let v = self.v.powf(o.v);
        let d = match (self.dep, o.dep) {
            (true, false) => if o.v == 0.0 { 0.0 } else { o.v * self.v.powf(o.v - 1.0) * self.d },
            (false, true) => v * self.v.ln() * o.d,
            (true, true) => v * (o.d * self.v.ln() + o.v * self.d / self.v),
            _ => 0.0,
        };
        D { v, d, dep: self.dep || o.dep }
    }
    fn ch(self, v: f64, k: f64) -> D { D { v, d: if self.dep { k * self.d } else { 0.0 }, dep: self.dep } }
}
/// derivative of a built-in function of one argument at u (textbook formulas)
pub fn df1(name: &str, u: f64) -> Option<f64> {
    let spi = 2.0 / std::f64::consts::PI.sqrt();
    Some(match name {
        "sin" => u.cos(),
        "cos" => -u.sin(),
        "tan" => 1.0 / (u.cos() * u.cos()),
        "cot" => -1.0 / (u.sin() * u.sin()),
        "sec" => u.sin() / (u.cos() * u.cos()),
        "csc" => -u.cos() / (u.sin() * u.sin()),
        "asin" => 1.0 / (1.0 - u * u).sqrt(),
        "acos" => -1.0 / (1.0 - u * u).sqrt(),
        "atan" => 1.0 / (1.0 + u * u),
        "acot" => -1.0 / (1.0 + u * u),
        "asec" => 1.0 / (u.abs() * (u * u - 1.0).sqrt()),
        "acsc" => -1.0 / (u.abs() * (u * u - 1.0).sqrt()),
        "sinh" => u.cosh(),
        "cosh" => u.sinh(),
        "tanh" => 1.0 / (u.cosh() * u.cosh()),
        "coth" => -1.0 / (u.sinh() * u.sinh()),
        "sech" => -u.sinh() / (u.cosh() * u.cosh()),
        "csch" => -u.cosh() / (u.sinh() * u.sinh()),
        "asinh" => 1.0 / (u * u + 1.0).sqrt(),
        "acosh" => if u > 1.0 { 1.0 / (u * u - 1.0).sqrt() } else { f64::NAN },
        "atanh" => if u.abs() < 1.0 { 1.0 / (1.0 - u * u) } else { f64::NAN },
        "acoth" => if u.abs() > 1.0 { 1.0 / (1.0 - u * u) } else { f64::NAN },
        "asech" => if u > 0.0 && u < 1.0 { -1.0 / (u * (1.0 - u * u).sqrt()) } else { f64::NAN },
        "acsch" => -1.0 / (u.abs() * (1.0 + u * u).sqrt()),
        "exp" => u.exp(),
        "ln" => if u > 0.0 { 1.0 / u } else { f64::NAN },
        "log10" => if u > 0.0 { 1.0 / (u * std::f64::consts::LN_10) } else { f64::NAN },
        "log2" => if u > 0.0 { 1.0 / (u * std::f64::consts::LN_2) } else { f64::NAN },
        "sqrt" => 1.0 / (2.0 * u.sqrt()),
        "cbrt" => { let c = u.cbrt(); 1.0 / (3.0 * c * c) }
        "abs" => if u > 0.0 { 1.0 } else if u < 0.0 { -1.0 } else { f64::NAN },
        "signum" => if u != 0.0 { 0.0 } else { f64::NAN },
        "floor" | "ceil" | "round" => 0.0,
        "sinc" => if u == 0.0 { f64::NAN } else { (u * u.cos() - u.sin()) / (u * u) },
        "erf" => spi * (-(u * u)).exp(),
        "erfc" => -spi * (-(u * u)).exp(),
        "gamma" => uf(GAMMA, u, 0.0) * uf(POLYGAMMA, 0.0, u),
        "digamma" => uf(POLYGAMMA, 1.0, u),
        "trigamma" => uf(POLYGAMMA, 2.0, u),
        "tetragamma" => uf(POLYGAMMA, 3.0, u),
        "lambertw" => { let w = uf(LAMBERTW, u, 0.0); w / (u * (1.0 + w)) }
        "elliptic_k" => (uf(ELLE, u, 0.0) / (1.0 - u * u) - uf(ELLK, u, 0.0)) / u,
        "elliptic_e" => (uf(ELLE, u, 0.0) - uf(ELLK, u, 0.0)) / u,
        "zeta" => uf(ZETAD, 1.0, u),
        "uu" => uf(OPAQUE + 10, u, 0.0),
        "vv" => uf(OPAQUE + 11, u, 0.0),
        _ => return None,
    })
}
pub fn dval(e: &Expr, env: &Env, var: &str) -> D {
    match e.view() {
        ExprView::Number(n) => konst(n),
        ExprView::Symbol(s) => match env.get(&s) { Some(v) => if s == var { D { v, d: 1.0, dep: true } } else { konst(v) }, None => unknown(&s) },
        ExprView::Function { name, args } => {
            let a: Vec<D> = args.iter().map(|a| dval(a, env, var)).collect();
            if a.iter().any(|t| !fin(t.v)) { return D { v: f64::NAN, d: f64::NAN, dep: true }; }
            if a.len() == 1 {
                let u = a[0];
                let v = match f1(name, u.v) { Some(v) => v, None => unknown(name) };
                if !u.dep { return konst(v); }
                u.ch(v, df1(name, u.v).unwrap())
            } else if a.len() == 2 {
                let (p, q) = (a[0], a[1]);
                let v = match f2(name, p.v, q.v) { Some(v) => v, None => unknown(name) };
                match name {
                    "atan2" => {
                        let n = q.v * q.v + p.v * p.v;
                        let mut d = 0.0;
                        if p.dep { d += q.v * p.d / n; }
                        if q.dep { d -= p.v * q.d / n; }
                        D { v, d, dep: p.dep || q.dep }
                    }
                    "log" => {
                        let l = |t: D| t.ch(t.v.ln(), 1.0 / t.v);
                        l(q).div(l(p))
                    }
                    "pow" => p.pow(q),
                    "hh" => {
                        let mut d = 0.0;
                        if p.dep { d += uf(OPAQUE + 12, p.v, q.v) * p.d; }
                        if q.dep { d += uf(OPAQUE + 102, p.v, q.v) * q.d; }
                        D { v, d, dep: p.dep || q.dep }
                    }
                    "beta" => {
                        let ps = |t: f64| uf(POLYGAMMA, 0.0, t);
                        let mut d = 0.0;
                        let s = p.v + q.v;
                        if p.dep { d += v * (ps(p.v) - ps(s)) * p.d; }
                        if q.dep { d += v * (ps(q.v) - ps(s)) * q.d; }
                        D { v, d, dep: p.dep || q.dep }
                    }
                    _ => {
                        if p.dep { skip(); }
                        if !q.dep { return konst(v); }
                        let k = match name {
                            "besselj" => (uf(BJ, p.v - 1.0, q.v) - uf(BJ, p.v + 1.0, q.v)) / 2.0,
                            "bessely" => (uf(BY, p.v - 1.0, q.v) - uf(BY, p.v + 1.0, q.v)) / 2.0,
                            "besseli" => (uf(BI, p.v - 1.0, q.v) + uf(BI, p.v + 1.0, q.v)) / 2.0,
                            "besselk" => -(uf(BK, p.v - 1.0, q.v) + uf(BK, p.v + 1.0, q.v)) / 2.0,
                            "polygamma" => uf(POLYGAMMA, p.v + 1.0, q.v),
                            "zeta_deriv" => uf(ZETAD, p.v + 1.0, q.v),
                            "hermite" => if p.v < 1.0 { 0.0 } else { 2.0 * p.v * hermite(p.v as i32 - 1, q.v) },
                            _ => unknown(name),
                        };
                        q.ch(v, k)
                    }
                }
            } else { unknown(name) }
        }
        ExprView::Sum(t) => { let mut s = konst(0.0); for x in t.iter() { s = s.add(dval(x, env, var)); } s }
        ExprView::Product(t) => { let mut s = konst(1.0); for x in t.iter() { s = s.mul(dval(x, env, var)); } s }
        ExprView::Div(a, b) => dval(a, env, var).div(dval(b, env, var)),
        ExprView::Pow(a, b) => dval(a, env, var).pow(dval(b, env, var)),
        ExprView::Derivative { .. } => { let j = super::jet::jet(e, env, &[var]); D { v: j.v(), d: j.top(), dep: j.dep } }
    }
}
