//! Reference for higher derivatives: truncated multilinear jets. A jet over n directions holds, for every
//! subset S of directions, the mixed derivative along S.
use super::prim::*;
use super::refm::*;
use symb_anafis::Expr;
use symb_anafis::visitor::ExprView;

#[derive(Clone)]
pub struct J { pub c: Vec<f64>, pub dep: bool }
pub fn kj(v: f64, n: usize) -> J { let mut c = vec![0.0; 1 << n]; c[0] = v; J { c, dep: false } }
impl J {
    pub fn v(&self) -> f64 { self.c[0] }
    pub fn top(&self) -> f64 { self.c[self.c.len() - 1] }
    pub fn add(&self, o: &J) -> J { J { c: (0..self.c.len()).map(|i| self.c[i] + o.c[i]).collect(), dep: self.dep || o.dep } }
    pub fn scale(&self, k: f64) -> J { J { c: self.c.iter().map(|x| k * x).collect(), dep: self.dep } }
    pub fn mul(&self, o: &J) -> J {
        if !self.dep { return o.scale(self.v()); }
        if !o.dep { return self.scale(o.v()); }
        J { c: (0..self.c.len()).map(|s| { let mut r = 0.0; for t in 0..=s { if t & s == t { r += self.c[t] * o.c[s ^ t]; } } r }).collect(), dep: true }
    }
    /// jet of F where F_0 = v and dF = sum of g_k * dh_k
    fn integ(v: f64, parts: &[(J, &J)]) -> J {
        let m = parts[0].1.c.len();
        let mut c = vec![0.0; m];
        c[0] = v;
        for s in 1..m {
            let i = s & s.wrapping_neg();
            let rest = s ^ i;
            for (g, h) in parts { if h.dep { for t in 0..=rest { if t & rest == t { c[s] += g.c[t] * h.c[s ^ t]; } } } }
        }
        J { c, dep: parts.iter().any(|p| p.1.dep) }
    }
    pub fn powc(&self, k: f64, deg: u32) -> J {
        let n = self.c.len().trailing_zeros() as usize;
        if k == 0.0 { return kj(1.0, n); }
        let v = self.v().powf(k);
        if !self.dep || deg == 0 { return kj(v, n); }
        J::integ(v, &[(self.powc(k - 1.0, deg - 1).scale(k), self)])
    }
}
fn opaque(name: &str) -> Option<u32> { match name { "uu" => Some(OPAQUE), "vv" => Some(OPAQUE + 1), "hh" => Some(OPAQUE + 2), _ => None } }
/// id of the n0-th derivative by the first and n1-th by the second argument
pub fn part(base: u32, n0: u32, n1: u32) -> u32 { base + 10 * n0 + 100 * n1 }
fn oap(base: u32, n0: u32, n1: u32, a: &J, b: Option<&J>, deg: u32) -> J {
    let n = a.c.len().trailing_zeros() as usize;
    let v = uf(part(base, n0, n1), a.v(), b.map_or(0.0, |b| b.v()));
    if deg == 0 || !(a.dep || b.is_some_and(|b| b.dep)) { return kj(v, n); }
    let mut p = vec![(oap(base, n0 + 1, n1, a, b, deg - 1), a)];
    if let Some(b) = b { p.push((oap(base, n0, n1 + 1, a, Some(b), deg - 1), b)); }
    J::integ(v, &p)
}
/// built-in function of one argument, derivatives up to order deg
pub fn ap(name: &str, u: &J, deg: u32) -> J {
    let n = u.c.len().trailing_zeros() as usize;
    let x = u.v();
    if let Some(b) = opaque(name) { return oap(b, 0, 0, u, None, deg); }
    let v = match name { "recip" => 1.0 / x, _ => match f1(name, x) { Some(v) => v, None => { note(name); check(false, 9998); skip() } } };
    if !u.dep || deg == 0 { return kj(v, n); }
    let e = deg - 1;
    let one = kj(1.0, n);
    let u2 = u.mul(u);
    let g = match name {
        "recip" => u.powc(-2.0, e).scale(-1.0),
        "sin" => ap("cos", u, e),
        "cos" => ap("sin", u, e).scale(-1.0),
        "tan" => { let t = ap("tan", u, e); one.add(&t.mul(&t)) }
        "exp" => ap("exp", u, e),
        "ln" => if x > 0.0 { ap("recip", u, e) } else { kj(f64::NAN, n) },
        "sqrt" => u.powc(-0.5, e).scale(0.5),
        "cbrt" => { let c = ap("cbrt", u, e); c.mul(&c).powc(-1.0, e).scale(1.0 / 3.0) }
        "atan" => one.add(&u2).powc(-1.0, e),
        "asin" => one.add(&u2.scale(-1.0)).powc(-0.5, e),
        "acos" => one.add(&u2.scale(-1.0)).powc(-0.5, e).scale(-1.0),
        "sinh" => ap("cosh", u, e),
        "cosh" => ap("sinh", u, e),
        "tanh" => { let t = ap("tanh", u, e); one.add(&t.mul(&t).scale(-1.0)) }
        "asinh" => one.add(&u2).powc(-0.5, e),
        "atanh" => if x.abs() < 1.0 { one.add(&u2.scale(-1.0)).powc(-1.0, e) } else { kj(f64::NAN, n) },
        "abs" => kj(if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { f64::NAN }, n),
        "erf" => ap("exp", &u2.scale(-1.0), e).scale(2.0 / std::f64::consts::PI.sqrt()),
        "gamma" => ap("gamma", u, e).mul(&ap("digamma", u, e)),
        "digamma" => ap("trigamma", u, e),
        "trigamma" => ap("tetragamma", u, e),
        _ => skip(),
    };
    J::integ(v, &[(g, u)])
}
fn pow(a: &J, b: &J, deg: u32) -> J {
    if !fin(a.v()) || !fin(b.v()) { return kj(f64::NAN, a.c.len().trailing_zeros() as usize); }
    if !b.dep { return a.powc(b.v(), deg); }
    let l = b.mul(&ap("ln", a, deg));
    let v = a.v().powf(b.v());
    // F' = F * L'
    fn go(v: f64, l: &J, deg: u32) -> J { if deg == 0 { return kj(v, l.c.len().trailing_zeros() as usize); } J::integ(v, &[(go(v, l, deg - 1), l)]) }
    go(v, &l, deg)
}
/// jet of e along the variables vars
pub fn jet(e: &Expr, env: &Env, vars: &[&str]) -> J {
    let n = vars.len();
    let deg = n as u32;
    match e.view() {
        ExprView::Number(v) => kj(v, n),
        ExprView::Symbol(s) => {
            let mut j = kj(match env.get(&s) { Some(v) => v, None => { note("unknown-in-reference"); check(false, 9999); skip() } }, n);
            for i in 0..n { if vars[i] == s { j.c[1 << i] = 1.0; j.dep = true; } }
            j
        }
        ExprView::Function { name, args } => {
            let a: Vec<J> = args.iter().map(|a| jet(a, env, vars)).collect();
            if a.iter().any(|t| !fin(t.v())) { return kj(f64::NAN, n); }
            match a.len() { 1 => ap(name, &a[0], deg), 2 if name == "hh" => oap(OPAQUE + 2, 0, 0, &a[0], Some(&a[1]), deg), 2 if name == "pow" => pow(&a[0], &a[1], deg), _ => skip() }
        }
        ExprView::Sum(t) => { let mut s = kj(0.0, n); for x in t.iter() { s = s.add(&jet(x, env, vars)); } s }
        ExprView::Product(t) => { let mut s = kj(1.0, n); for x in t.iter() { s = s.mul(&jet(x, env, vars)); } s }
        ExprView::Div(a, b) => {
            let (a, b) = (jet(a, env, vars), jet(b, env, vars));
            if !fin(a.v()) || !fin(b.v()) || b.v() == 0.0 { return kj(f64::NAN, n); }
            a.mul(&b.powc(-1.0, deg))
        }
        ExprView::Pow(a, b) => pow(&jet(a, env, vars), &jet(b, env, vars), deg),
        ExprView::Derivative { inner, var, order } => {
            // partial derivatives of an opaque function by its arguments
            let (mut k, mut cur) = ([0u32; 2], (inner, var, order));
            loop {
                let i = match cur.1 { "arg0" => 0, "arg1" => 1, _ => break };
                k[i] += cur.2;
                match cur.0.view() {
                    ExprView::Function { name, args } => {
                        let base = match opaque(name) { Some(b) => b, None => skip() };
                        if i >= args.len() { note("argument out of range"); check(false, 9997); skip(); }
                        let a: Vec<J> = args.iter().map(|a| jet(a, env, vars)).collect();
                        return oap(base, k[0], k[1], &a[0], a.get(1), deg);
                    }
                    ExprView::Derivative { inner, var, order } => cur = (inner, var, order),
                    _ => skip(),
                }
            }
            // total derivative by a variable
            if n + order as usize > 5 { skip(); }
            let mut vs = vars.to_vec();
            for _ in 0..order { vs.push(var); }
            let j = jet(inner, env, &vs);
            let hi = ((1usize << order) - 1) << n;
            J { c: (0..1 << n).map(|s| j.c[s | hi]).collect(), dep: j.dep }
        }
    }
}
