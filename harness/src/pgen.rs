//! Expressions with their values whose coefficients come from small sets (for printing).
use super::prim::*;
use super::refm::*;
use super::tgen::{T, num, op, t};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use symb_anafis::Expr;

pub const CS: [f64; 5] = [2.0, -3.0, 0.5, -1.0, -0.25];
static NC: AtomicUsize = AtomicUsize::new(5);
/// how many of the coefficients are used
pub fn few(n: usize) { NC.store(n, Relaxed) }
pub fn c() -> f64 { CS[choice(NC.load(Relaxed))] }
pub fn sy(n: &str, env: &Env) -> T { t(Expr::symbol(n), env.get(n).unwrap()) }
pub fn f(n: &str, a: T) -> T { t(Expr::func(n, a.e), f1(n, a.v).unwrap()) }
pub fn g(n: &str, a: T, b: T) -> T { t(Expr::func_multi(n, vec![a.e, b.e]), f2(n, a.v, b.v).unwrap()) }
pub fn pw(a: T, b: T) -> T { t(Expr::pow_from_arcs(Arc::new(a.e), Arc::new(b.e)), a.v.powf(b.v)) }
pub fn pk(a: T, k: f64) -> T { pw(a, num(k)) }
pub fn sum(v: Vec<T>) -> T { let s = v.iter().fold(0.0, |s, a| s + a.v); t(Expr::sum_from_arcs(v.into_iter().map(|a| Arc::new(a.e)).collect()), s) }
pub fn prod(v: Vec<T>) -> T { let s = v.iter().fold(1.0, |s, a| s * a.v); t(Expr::product_from_arcs(v.into_iter().map(|a| Arc::new(a.e)).collect()), s) }
pub fn neg(a: T) -> T { t(-a.e, -a.v) }
pub fn e(env: &Env) -> T { let _ = env; t(Expr::symbol("e"), std::f64::consts::E) }
pub const PLEAVES: usize = 15;
pub fn pleaf(k: usize, env: &Env) -> T {
    let (x, y, z) = (|| sy("x", env), || sy("y", env), || sy("z", env));
    match k {
        0 => x(),
        1 => num(c()),
        2 => f("sin", x()),
        3 => pk(x(), 2.0),
        4 => op(2, num(c()), x()),
        5 => op(7, x(), y()),
        6 => op(1, x(), z()),
        7 => neg(y()),
        8 => op(0, op(0, num(c()), x()), pk(x(), 2.0)),
        9 => prod(vec![x(), y()]),
        10 => pk(x(), -1.0),
        11 => pw(e(env), x()),
        12 => sum(vec![neg(x()), y(), num(c())]),
        13 => neg(op(0, op(0, num(c()), op(2, num(c()), x())), pk(x(), 2.0))),
        _ => g("hh", x(), neg(y())),
    }
}
pub const PWRAPS: usize = 22;
pub fn pwrap(k: usize, a: T, env: &Env) -> T {
    let (y, z) = (|| sy("y", env), || sy("z", env));
    match k {
        0 => a,
        1 => f("sin", a),
        2 => neg(a),
        3 => pk(a, 2.0),
        4 => pk(a, -1.0),
        5 => pk(a, 0.5),
        6 => pw(num(2.0), a),
        7 => pw(a, y()),
        8 => pw(e(env), a),
        9 => { let (b, d) = (pk(a.clone(), 2.0), op(2, num(c()), a)); op(0, op(0, num(c()), d), b) }
        10 => { let b = pk(a.clone(), 3.0); op(1, op(2, num(2.0), a), b) }
        11 => op(2, num(c()), a),
        12 => op(7, a, num(2.0)),
        13 => op(7, y(), a),
        14 => g("hh", a, z()),
        15 => f("sqrt", a),
        16 => f("abs", a),
        17 => pw(y(), a),
        18 => op(4, y(), a),
        19 => prod(vec![num(-2.0), a, z()]),
        20 => prod(vec![num(-1.0), neg(a)]),
        _ => sum(vec![num(-2.0), a, neg(z())]),
    }
}
