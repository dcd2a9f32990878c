//! C01 differentiation returns the mathematical derivative.
use super::prim::*;
use super::refm::*;
use super::shapes::*;
use symb_anafis::{Diff, Expr, symb};

fn verify(e: &Expr) {
    let d = match Diff::new().skip_simplification(true).differentiate(e, &symb("x")) { Ok(d) => d, Err(_) => { check(false, 2); return; } };
    let env = Env::any();
    let r = dval(e, &env, "x");
    if !fin(r.v) || !fin(r.d) { skip(); }
    let v = val(&d, &env);
    if !fin(v) { check(thin(), 3); skip(); }
    reach(1);
    check_eq(v, r.d, 1);
}
fn arg(k: usize) -> Expr {
    match k {
        0 => x(),
        1 => n(coef()) * x() + n(coef()),
        2 => x() * y(),
        _ => x().pow(2.0) + y(),
    }
}
harness! {
    h_c01_fun1 {
        let f = F1[split(F1.len())];
        let k = split(4);
        note(f);
        verify(&Expr::func(f, arg(k)));
    }
    h_c01_arith {
        let (a, b, c) = (coef(), coef(), coef());
        let e = match split(6) {
            0 => n(a) * x() + n(b) * y() + n(c),
            1 => n(a) * x().pow(2.0) + n(b) * x() + n(c),
            2 => (n(a) * x() + n(b)) / (x() + n(c)),
            3 => (n(a) * x() + n(b)).pow(n(expo())),
            4 => (x() + n(a)) * (x() + n(b)) * (y() + n(c)),
            _ => n(a).pow(x()) + x().pow(n(expo())) * n(c),
        };
        verify(&e);
    }
    h_c01_fun2 {
        let f = F2[split(F2.len())];
        note(f);
        let arg2 = |k: usize| match k { 0 => x(), 1 => y(), 2 => n(coef()) * x() + y(), 3 => x() * y(), _ => Expr::func("uu", x()) };
        let a = match f { "atan2" | "beta" => arg2(choice(5)), "log" => match choice(4) { 0 => n(coef_in(2, 20)), k => arg2(k - 1) }, "hermite" => n(choice(6) as f64), "besselj" | "bessely" | "besseli" | "besselk" => match choice(3) { 0 => n(choice(4) as f64), 1 => y(), _ => n(coef_in(-4, 9)) }, _ => n(choice(5) as f64) };
        verify(&Expr::func_multi(f, vec![a, arg2(choice(5))]));
    }
    h_c01_chain {
        // every pair of one-argument functions
        let f = F1[split(36)];
        let g = F1[choice(F1.len())];
        note(f); note(g);
        verify(&Expr::func(f, Expr::func(g, x())));
    }
    h_c01_opaque {
        // every node kind over arbitrary differentiable operands
        let k = split(14);
        let op = |i: usize| match i { 0 => Expr::func("uu", x()), 1 => Expr::func("vv", x() * y()), 2 => Expr::func_multi("hh", vec![x(), y()]), 3 => Expr::func("uu", y()), 4 => x(), 5 => y(), _ => n(coef()) };
        let (a, b) = (op(choice(7)), match (choice(7), k) { (6, 4) => n(expo()), (j, _) => op(j) });
        let e = match k {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            4 => a.pow(b),
            5 => a.pow(n(expo())),
            6 => n(coef()) * a * b * Expr::func("vv", x()),
            7 => a / (b + Expr::func("vv", x())),
            8 => Expr::func_multi("hh", vec![a, b]),
            9 => Expr::func("uu", a * b),
            10 => (a.clone() + b).pow(2.0) * a,
            11 => Expr::func("exp", a) / b,
            12 => a.pow(0.5) - b.pow(-1.5),
            _ => Expr::func("sin", a) * Expr::func("ln", b),
        };
        verify(&e);
    }
    h_c01_pieces {
        let (k, o) = (split(PIECES), split(6));
        let a = piece(k);
        let b = match (choice(PIECES), o) { (2, 2) => n(expo()), (j, _) => piece(j) };
        let e = match o { 0 => a * b, 1 => a / b, 2 => a.pow(b), 3 => Expr::func("exp", a) * b, 4 => (a + b).pow(3.0), _ => Expr::func("atan", a / b) };
        verify(&e);
    }
    h_c01_long {
        // products around the length at which the rule switches to the logarithmic form
        let k = 9 + split(4);
        let f: Vec<Expr> = (0..k).map(|i| match i { 0 => n(coef()), 1 => y(), 2 => Expr::func("sin", x()), 3 => Expr::func("uu", x()), 4 => Expr::func("exp", y()), 5 => x(), _ => x() + n(i as f64) }).collect();
        verify(&Expr::product(f));
    }
    h_c01_nested {
        // deeper compositions and polynomials in a function
        let u = match split(6) { 0 => Expr::func("sin", x()), 1 => x().pow(2.0) + n(coef()) * x() + n(1.0), 2 => Expr::func("sqrt", x()), 3 => x() / (y() + x()), 4 => Expr::func("ln", x() + y()), _ => Expr::func("uu", x()) };
        let e = match split(8) {
            0 => n(coef()) * u.clone().pow(3.0) + n(coef()) * u.clone().pow(2.0) + u + n(coef()),
            1 => Expr::func("sin", Expr::func("exp", u)),
            2 => Expr::func("ln", n(1.0) + u.pow(2.0)),
            3 => u.clone().pow(u),
            4 => (n(coef()) * u.clone() + y()) / (u + n(coef())),
            5 => Expr::func_multi("atan2", vec![u.clone() * y(), u]),
            6 => Expr::func("exp", -(u.pow(2.0))),
            _ => Expr::func("sqrt", n(coef()) + u.clone() * x()) * u,
        };
        verify(&e);
    }
    h_c01_wrt_y {
        // the variable need not be x, and other variables are constants
        let u = Expr::func_multi("hh", vec![x(), y()]);
        let e = match split(5) { 0 => u.clone() * x(), 1 => u / x(), 2 => x().pow(y()), 3 => y().pow(x()), _ => Expr::func("sin", x() * y()) / y() };
        let d = match Diff::new().skip_simplification(true).differentiate(&e, &symb("y")) { Ok(d) => d, Err(_) => { check(false, 2); return; } };
        let env = Env::any();
        let r = dval(&e, &env, "y");
        if !fin(r.v) || !fin(r.d) { skip(); }
        let v = val(&d, &env);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, r.d, 1);
    }
}
