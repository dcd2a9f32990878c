//! Expressions built together with the value they have to denote.
use super::prim::*;
use super::refm::*;
use symb_anafis::Expr;
use std::sync::Arc;

/// an expression with the value it has to denote
#[derive(Clone)]
pub struct T { pub e: Expr, pub v: f64 }
/// a non-finite intermediate value leaves the whole expression undefined at the point
pub fn t(e: Expr, v: f64) -> T { if !fin(v) { skip(); } T { e, v } }
pub fn num(c: f64) -> T { t(Expr::number(c), c) }
pub fn leaf(k: usize, env: &Env) -> T { leafc(k, env, true) }
/// `sym` false: the coefficient is one of two constants instead of a symbolic integer
pub fn leafc(k: usize, env: &Env, sym: bool) -> T {
    let coef = || if sym { coef() } else { [2.0, -1.0][choice(2)] };
    match k {
        0 => t(Expr::symbol("x"), env.x),
        1 => t(Expr::symbol("y"), env.y),
        2 => num(coef()),
        3 => t(Expr::func("sin", Expr::symbol("x")), env.x.sin()),
        4 => t(Expr::symbol("x").pow(2.0), env.x * env.x),
        5 => { let c = coef(); t(Expr::number(c) * Expr::symbol("x"), c * env.x) }
        6 => t(Expr::symbol("x") / Expr::symbol("y"), env.x / env.y),
        7 => t(Expr::symbol("x") + Expr::symbol("z"), env.x + env.z),
        8 => t(-Expr::symbol("y"), -env.y),
        9 => { let c = coef(); t(Expr::number(c) + Expr::symbol("x") + Expr::symbol("x").pow(2.0), c + env.x + env.x * env.x) }
        10 => t(Expr::symbol("x") * Expr::symbol("y"), env.x * env.y),
        _ => t(Expr::symbol("z"), env.z),
    }
}
pub const LEAVES: usize = 12;
pub fn op(k: usize, a: T, b: T) -> T {
    match k {
        0 => t(a.e + b.e, a.v + b.v),
        1 => t(a.e - b.e, a.v - b.v),
        2 => t(a.e * b.e, a.v * b.v),
        3 => t(a.e / b.e, a.v / b.v),
        4 => t(Expr::sub_expr(a.e, b.e), a.v - b.v),
        5 => t(Expr::sum_from_arcs(vec![Arc::new(a.e), Arc::new(b.e)]), a.v + b.v),
        6 => t(Expr::product_from_arcs(vec![Arc::new(a.e), Arc::new(b.e)]), a.v * b.v),
        _ => t(Expr::div_from_arcs(Arc::new(a.e), Arc::new(b.e)), a.v / b.v),
    }
}

/// every node kind over an operand: functions of one and two arguments, powers, quotients, sums that
/// are stored as polynomials
pub const WRAPS: usize = 14;
pub fn wrap(k: usize, a: T, env: &Env) -> T {
    let f = |n: &str, a: T| t(Expr::func(n, a.e), f1(n, a.v).unwrap());
    let p = |a: &T, k: f64| t(a.e.clone().pow(k), a.v.powf(k));
    match k {
        0 => a,
        1 => f("sin", a),
        2 => f("exp", a),
        3 => f("uu", a),
        4 => { let (x, y) = (a.clone(), leaf(1, env)); t(Expr::func_multi("hh", vec![x.e, y.e]), f2("hh", x.v, y.v).unwrap()) }
        5 => p(&a, 2.0),
        6 => p(&a, -1.0),
        7 => { let b = p(&a, 2.0); let c = coef(); op(0, op(0, num(c), a), b) }
        8 => { let b = p(&a, 3.0); op(2, op(0, b, op(2, num(2.0), a)), leaf(1, env)) }
        9 => op(3, leaf(1, env), op(0, num(1.0), p(&a, 2.0))),
        10 => { let b = f("sin", a); let q = p(&b, 2.0); op(0, op(0, num(coef()), op(2, num(3.0), b)), q) }
        11 => { let a = if a.e.as_number().is_some() { num(expo()) } else { a }; let (x, y) = (a.clone(), leaf(1, env)); t(Expr::pow_static(y.e, x.e), y.v.powf(x.v)) }
        12 => f("ln", op(0, a, leaf(11, env))),
        _ => t(Expr::func_multi("hh", vec![Expr::symbol("z"), a.e]), f2("hh", env.z, a.v).unwrap()),
    }
}
