//! C17 gradient, Hessian and Jacobian.
use super::jet::*;
use super::prim::*;
use super::refm::*;
use super::shapes::*;
use symb_anafis::{Expr, Symbol, gradient, hessian, jacobian, symb};

const SHAPES: usize = 18;
fn shape(k: usize) -> Expr {
    // small: simplification enumerates coefficients
    let coef = || coef_in(-2, 2);
    let hh = |a: Expr, b: Expr| Expr::func_multi("hh", vec![a, b]);
    match k {
        0 => n(coef()) * x().pow(2.0) + n(coef()) * x() * y() + n(coef()) * z(),
        1 => x() * y() * z(),
        2 => x() / y() + z(),
        3 => Expr::func("uu", x() + n(coef()) * y()) * z(),
        4 => hh(x(), y()),
        5 => hh(x() * z(), y()),
        6 => Expr::func("sin", x()) * Expr::func("exp", y()),
        7 => n(coef()),
        8 => y(),
        9 => x().pow(3.0) + x().pow(2.0) + n(coef()),
        10 => Expr::func("ln", y()) * x(),
        11 => (x() - y()).pow(n(expo())),
        12 => x().pow(2.0) + y().pow(2.0) + z().pow(2.0),
        13 => Expr::func("sqrt", z()) / x(),
        14 => z() * Expr::func("uu", y()) - x(),
        15 => Expr::func("atan", x() + y() + z()),
        16 => Expr::symbol("w") * x() + y(),
        _ => x() * x().pow(n(expo())) * y(),
    }
}
/// requested variables: every order, repetitions, absent ones
const LISTS: &[&[&str]] = &[&["x", "y", "z"], &["z", "x"], &["y"], &["y", "x", "z"], &["x", "x"], &["w", "y"], &["q", "x"], &[]];
fn syms(l: &[&str]) -> Vec<Symbol> { l.iter().map(|s| symb(s)).collect() }
fn ok(d: &Expr, r: &J, env: &Env) {
    let v = val(d, env);
    if !fin(v) { return; }
    check_eq(v, r.top(), 1);
}
harness! {
    h_c17_gradient {
        let (k, l) = (split(SHAPES), LISTS[split(LISTS.len())]);
        let e = shape(k);
        let s = syms(l);
        let rs: Vec<&Symbol> = s.iter().collect();
        let g = match gradient(&e, &rs) { Ok(g) => g, Err(_) => { check(false, 2); return; } };
        check(g.len() == l.len(), 3);
        reach(1);
        let env = Env::any();
        for i in 0..l.len() {
            let r = jet(&e, &env, &[l[i]]);
            if r.c.iter().all(|v| fin(*v)) { ok(&g[i], &r, &env); }
        }
    }
    h_c17_hessian {
        let (k, l) = (split(SHAPES), LISTS[split(LISTS.len())]);
        let e = shape(k);
        let s = syms(l);
        let rs: Vec<&Symbol> = s.iter().collect();
        let h = match hessian(&e, &rs) { Ok(g) => g, Err(_) => { check(false, 2); return; } };
        check(h.len() == l.len() && h.iter().all(|r| r.len() == l.len()), 3);
        reach(1);
        let env = Env::any();
        for i in 0..l.len() { for j in 0..l.len() {
            let r = jet(&e, &env, &[l[i], l[j]]);
            if r.c.iter().all(|v| fin(*v)) { ok(&h[i][j], &r, &env); }
            let (a, b) = (val(&h[i][j], &env), val(&h[j][i], &env));
            if i < j && fin(a) && fin(b) { check_eq(a, b, 4); }
        } }
    }
    h_c17_jacobian {
        let (k, l) = (split(SHAPES), LISTS[split(LISTS.len())]);
        let es = match choice(4) { 0 => vec![shape(k)], 1 => vec![shape(k), x() * y()], 2 => vec![z(), shape(k), Expr::func("uu", x() * y())], _ => vec![] };
        let s = syms(l);
        let rs: Vec<&Symbol> = s.iter().collect();
        let m = match jacobian(&es, &rs) { Ok(g) => g, Err(_) => { check(false, 2); return; } };
        check(m.len() == es.len() && m.iter().all(|r| r.len() == l.len()), 3);
        reach(1);
        let env = Env::any();
        for (i, e) in es.iter().enumerate() { for j in 0..l.len() {
            let r = jet(e, &env, &[l[j]]);
            if r.c.iter().all(|v| fin(*v)) { ok(&m[i][j], &r, &env); }
        } }
    }
}
