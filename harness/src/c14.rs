//! C14 printed expressions parse back to the same value
use super::pgen::*;
use super::prim::*;
use super::reader::{names, same};
use super::refm::*;
use super::shapes::{F1, F2};
use super::tgen::{T, num, op, t};
use symb_anafis::{Expr, parse};

fn round(a: T, env: &Env) { round_names(a, env, &["x", "y", "z", "w"]) }
fn round_names(a: T, env: &Env, fixed: &[&str]) {
    let s = a.e.to_string();
    match parse(&s, &names(fixed), &names(&["hh", "uu", "vv"]), None) {
        Ok(e) => same(&e, a.v, env),
        Err(_) => { note(&s); check(false, 2) }
    }
}
harness! {
    h_c14_wraps {
        few(2);
        let env = Env::any();
        let (i, j, k) = (split(PWRAPS), choice(PWRAPS), choice(PLEAVES));
        round(pwrap(i, pwrap(j, pleaf(k, &env), &env), &env), &env);
    }
    h_c14_wraps3_t {
        few(1);
        let env = Env::any();
        let (h, i, j, k) = (split(PWRAPS), split(PWRAPS), choice(PWRAPS), choice(PLEAVES));
        round(pwrap(h, pwrap(i, pwrap(j, pleaf(k, &env), &env), &env), &env), &env);
    }
    h_c14_pairs {
        let env = Env::any();
        let (o, i, j) = (split(8), split(PLEAVES), choice(PLEAVES));
        round(op(o, pleaf(i, &env), pleaf(j, &env)), &env);
    }
    h_c14_wrapped_pairs {
        few(2);
        let env = Env::any();
        let (w, o, i, j) = (split(PWRAPS), choice(8), choice(PLEAVES), choice(4));
        round(pwrap(w, op(o, pleaf(i, &env), pleaf([0, 4, 7, 12][j], &env)), &env), &env);
    }
    h_c14_pow_pairs {
        let env = Env::any();
        let (i, j) = (split(PLEAVES), choice(PLEAVES));
        round(pw(pleaf(i, &env), pleaf(j, &env)), &env);
    }
    h_c14_trees_t {
        few(2);
        let env = Env::any();
        let (o, p, i, j, k) = (split(8), split(8), choice(PLEAVES), choice(PLEAVES), choice(PLEAVES));
        if choice(2) == 0 { round(op(o, op(p, pleaf(i, &env), pleaf(j, &env)), pleaf(k, &env)), &env) }
        else { round(op(o, pleaf(i, &env), op(p, pleaf(j, &env), pleaf(k, &env))), &env) }
    }
    h_c14_numbers {
        // numbers of many magnitudes and signs in every position
        let env = Env::any();
        const N: [f64; 22] = [0.0, -0.0, 1.0, -1.0, 7.0, 1e9, 1e10, -1e10, 12345678901.0, 1e15, 1e16, 1e21, 1e300, 0.1, -0.1, 1.5, 1e-5, 1e-7, 1.25e-17, -2.5e-300, 0.30000000000000004, 123456.789];
        let n = N[split(22)];
        let (x, y) = (|| sy("x", &env), || sy("y", &env));
        let a = match choice(9) {
            0 => num(n),
            1 => op(2, num(n), x()),
            2 => op(0, x(), num(n)),
            3 => op(1, x(), num(n)),
            4 => op(1, x(), op(2, num(n), y())),
            5 => op(0, op(0, num(n), op(2, num(n), x())), pk(x(), 2.0)),
            6 => { let a = op(2, x(), y()); op(7, a, num(if n == 0.0 { 3.0 } else { n })) }
            7 => g("hh", num(n), x()),
            _ => f("uu", op(2, num(n), op(0, x(), y()))),
        };
        round(a, &env);
    }
    h_c14_exponents {
        let env = Env::any();
        const N: [f64; 12] = [0.0, 1.0, 2.0, -1.0, -2.0, 0.5, -0.5, 1.5, 12.0, -12.0, 3.0, 0.25];
        let n = N[split(12)];
        let a = match choice(8) {
            0 => pk(sy("x", &env), n),
            1 => pk(pleaf(choice(PLEAVES), &env), n),
            2 => pk(pk(sy("x", &env), n), N[choice(12)]),
            3 => op(7, sy("y", &env), pk(sy("x", &env), n)),
            4 => op(2, num(c()), pk(sy("x", &env), n)),
            5 => op(1, sy("y", &env), pk(sy("x", &env), n)),
            6 => pw(num(2.0), op(2, num(n), sy("x", &env))),
            _ => pk(sum(vec![num(-1.0), sy("x", &env), sy("y", &env)]), n),
        };
        round(a, &env);
    }
    h_c14_functions {
        let env = Env::any();
        let k = split(F1.len() + F2.len());
        let a = || pleaf(choice(4) * 2, &env);
        let r = if k < F1.len() { f(F1[k], a()) } else if F2[k - F1.len()] == "hermite" { g("hermite", num(2.0), a()) } else { g(F2[k - F1.len()], a(), sy("y", &env)) };
        let r = match choice(4) { 0 => r, 1 => pk(r, 2.0), 2 => neg(r), _ => op(2, num(-2.0), r) };
        round(r, &env);
    }
    h_c14_results {
        few(2);
        // outputs of differentiation and simplification
        use symb_anafis::{Diff, Simplify, symb};
        let env = Env::any();
        let (i, k, m) = (split(PWRAPS), choice(PLEAVES), choice(2));
        let a = pwrap(i, pleaf(k, &env), &env);
        let r = if m == 0 { Diff::new().differentiate(&a.e, &symb("x")) } else { Simplify::new().simplify(&a.e) };
        let Ok(r) = r else { return };
        let v = val(&r, &env);
        round(t(r, v), &env);
    }
    h_c14_names {
        let env = Env::any();
        const N: [&str; 8] = ["alpha", "x_1", "x1", "theta_12", "foo", "Xy", "_q", "sinx"];
        let n = N[split(8)];
        let v = real();
        let s = || t(Expr::symbol(n), v);
        let a = match choice(6) {
            0 => s(),
            1 => op(2, num(c()), s()),
            2 => pk(s(), 2.0),
            3 => op(2, s(), sy("x", &env)),
            4 => f("sin", op(0, s(), sy("x", &env))),
            _ => op(0, op(0, num(1.0), s()), pk(s(), 2.0)),
        };
        let txt = a.e.to_string();
        match parse(&txt, &names(&["x", n]), &names(&[]), None) {
            Ok(e) => { let e = e.substitute(n, &Expr::symbol("y")); let mut en = env; en.y = v; same(&e, a.v, &en) }
            Err(_) => { note(&txt); check(false, 2) }
        }
    }
    h_c14_derivatives {
        // unevaluated derivatives keep function, arguments, variable and order
        use symb_anafis::visitor::ExprView;
        let n = 1 + choice(3) as u32;
        let (fs, args): (&str, Vec<Expr>) = [("uu", vec![Expr::symbol("x")]), ("hh", vec![Expr::symbol("x"), Expr::symbol("y")]), ("uu", vec![Expr::symbol("x") * Expr::symbol("y")])][split(3)].clone();
        let d = Expr::derivative(Expr::func_multi(fs, args), ["x", "y"][choice(2)], n);
        let e = match choice(6) { 0 => d, 1 => Expr::number(2.0) * d, 2 => d.pow(2.0), 3 => Expr::func("sin", d), 4 => Expr::symbol("x") / d, _ => d + Expr::symbol("x") };
        let s = e.to_string();
        match parse(&s, &names(&["x", "y"]), &names(&["uu", "hh"]), None) {
            Ok(r) => {
                fn find(e: &Expr) -> Option<Expr> {
                    match e.view() {
                        ExprView::Derivative { .. } => Some(e.clone()),
                        ExprView::Function { args, .. } => args.iter().find_map(|a| find(a)),
                        ExprView::Product(v) | ExprView::Sum(v) => v.iter().find_map(|a| find(a)),
                        ExprView::Div(_, b) => find(b),
                        ExprView::Pow(b, _) => find(b),
                        _ => None,
                    }
                }
                match (find(&r), find(&e)) { (Some(a), Some(b)) => check(a == b, 3), _ => check(false, 4) }
                check(r == e, 5);
            }
            Err(_) => { note(&s); check(false, 2) }
        }
    }
    h_c14_nested_derivatives {
        // mixed partial derivatives, as differentiation leaves them
        let f = || Expr::func_multi("hh", vec![Expr::symbol("x"), Expr::symbol("y")]);
        let e = match split(3) {
            0 => Expr::derivative(Expr::derivative(f(), "x", 1), "y", 1),
            1 => Expr::derivative(Expr::derivative(f(), "x", 2), "y", 1),
            _ => Expr::derivative(Expr::derivative(f(), "y", 1), "x", 2),
        };
        let s = e.to_string();
        note(&s);
        match parse(&s, &names(&["x", "y"]), &names(&["uu", "hh"]), None) { Ok(r) => check(r == e, 3), Err(_) => check(false, 2) }
    }
}
