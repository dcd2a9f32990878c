//! C23 repeated and mixed derivatives.
use super::jet::*;
use super::prim::*;
use super::refm::*;
use super::shapes::*;
use symb_anafis::{Diff, Expr, symb};

fn diff(e: &Expr, v: &str, simp: bool) -> Expr {
    match Diff::new().skip_simplification(!simp).differentiate(e, &symb(v)) { Ok(d) => d, Err(_) => { check(false, 2); skip() } }
}
/// differentiates along vars one after the other and compares with the reference jet
fn verify(e: &Expr, vars: &[&str], simp: bool) {
    let env = Env::any();
    let j = jet(e, &env, vars);
    if j.c.iter().any(|v| !fin(*v)) { skip(); }
    let mut d = e.clone();
    for v in vars { d = diff(&d, v, simp); }
    let v = val(&d, &env);
    reach(1);
    if !fin(v) { if !simp { check(thin(), 3); } skip(); }
    check_eq(v, j.top(), 1);
}
const SHAPES: usize = 26;
fn shape(k: usize, r: i64) -> Expr {
    let coef = || coef_in(-r, r);
    let uu = |e: Expr| Expr::func("uu", e);
    let hh = |a: Expr, b: Expr| Expr::func_multi("hh", vec![a, b]);
    match k {
        0 => n(coef()) * x().pow(3.0) + n(coef()) * x() * y().pow(2.0) + y(),
        1 => x() * y() * z(),
        2 => x() / y(),
        3 => x().pow(y()),
        4 => (x() + y()).pow(n(expo())),
        5 => Expr::func("sin", x() * y()),
        6 => Expr::func("exp", x() / y()),
        7 => Expr::func("ln", x() + y()),
        8 => Expr::func("sqrt", x() * y() + z()),
        9 => uu(x()),
        10 => uu(x() * y()),
        11 => hh(x(), y()),
        12 => hh(x() * y(), x()),
        13 => uu(x()) * Expr::func("vv", y()) * x(),
        14 => uu(x()) / Expr::func("vv", x()),
        15 => Expr::func("tan", x() + n(coef()) * y()),
        16 => x() / (x() + y()),
        17 => Expr::func("atan", x() * y()),
        18 => uu(Expr::func("vv", x())) + y(),
        19 => n(1.0) + x() + x().pow(2.0) + x().pow(4.0),
        20 => (n(coef()) * x() + n(coef())) / (x().pow(2.0) + n(1.0)),
        21 => Expr::func("sin", x()).pow(2.0) + n(coef()) * Expr::func("sin", x()) + n(1.0),
        22 => Expr::func("sinh", x()) * Expr::func("cosh", y()),
        23 => hh(y(), uu(x())),
        24 => x() * Expr::func("cbrt", y()) + y() * Expr::func("asin", x()),
        _ => Expr::derivative(uu(x()), "x", 1) * x(),
    }
}
const VARS: &[&[&str]] = &[&["x", "x"], &["x", "y"], &["y", "x"], &["y", "y"], &["x", "z"]];
const VARS3: &[&[&str]] = &[&["x", "x", "x"], &["x", "y", "x"], &["y", "x", "x"], &["x", "y", "y"], &["x", "y", "z"]];
harness! {
    h_c23_second { let (k, v) = (split(SHAPES), split(VARS.len())); verify(&shape(k, 1000), VARS[v], false); }
    h_c23_simplified { let (k, v) = (split(SHAPES), split(VARS.len())); verify(&shape(k, 2), VARS[v], true); }
    h_c23_third { let (k, v) = (split(SHAPES), split(VARS3.len())); if k == 3 || k == 12 || k == 23 { skip(); } verify(&shape(k, 1000), VARS3[v], false); }
    h_c23_symmetric {
        // both orders of differentiation denote the same value
        let e = shape(split(SHAPES), 1000);
        let env = Env::any();
        let a = val(&diff(&diff(&e, "x", false), "y", false), &env);
        let b = val(&diff(&diff(&e, "y", false), "x", false), &env);
        if !fin(a) || !fin(b) { skip(); }
        reach(1);
        check_eq(a, b, 1);
    }
    h_c23_order {
        // repeated derivatives of an unknown function keep function, argument and total order
        let m = split(4) + 1;
        let mut e = Expr::func("uu", x());
        for _ in 0..m { e = diff(&e, "x", choice(2) == 1); }
        let env = Env::any();
        reach(1);
        check_eq(val(&e, &env), uf(part(OPAQUE, m as u32, 0), env.x, 0.0), 1);
        let c = Expr::func("uu", x());
        check_eq(val(&diff(&c, "y", choice(2) == 1), &env), 0.0, 2);
        let mut e = Expr::func_multi("hh", vec![x(), y()]);
        let (a, b) = (choice(3), choice(3));
        for _ in 0..a { e = diff(&e, "x", false); }
        for _ in 0..b { e = diff(&e, "y", false); }
        check_eq(val(&e, &env), uf(part(OPAQUE + 2, a as u32, b as u32), env.x, env.y), 3);
    }
}
