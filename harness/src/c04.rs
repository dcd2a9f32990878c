//! C04 smart constructors and operators preserve algebraic value.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use symb_anafis::{Expr, Symbol, symb, ArcExprExt};
use std::sync::Arc;

fn verify(r: &T, env: &Env) {
    if !fin(r.v) { skip(); }
    let v = val(&r.e, env);
    reach(1);
    if !fin(v) { check(thin(), 3); skip(); }
    check_eq(v, r.v, 1);
}
const TINY: &[f64] = &[1e-20, 3e-17, -2.5e-15, 6.6e-34, 1e16, 0.1, -0.3, 1e-9];
const EXPS: &[f64] = &[0.0, 1.0, 2.0, 3.0, 5.0, -1.0, -2.0, 0.5, 1.5, -0.5, 2.5];
harness! {
    h_c04_tree2 {
        let (k, o) = (split(LEAVES), split(8));
        let env = Env::any();
        let a = leaf(k, &env);
        let b = leaf(choice(LEAVES), &env);
        verify(&op(o, a, b), &env);
    }
    h_c04_tree3 {
        let (k, o) = (split(LEAVES), split(4));
        let env = Env::any();
        let a = leaf(k, &env);
        let b = leaf([0, 2, 5, 7, 9, 10][choice(6)], &env);
        let c = leafc([0, 1, 2, 4, 5, 9][choice(6)], &env, false);
        let p = choice(4);
        let r = if choice(2) == 0 { let m = op(p, b, c); op(o, a, m) } else { let m = op(o, a, b); op(p, m, c) };
        verify(&r, &env);
    }
    h_c04_tree4_t {
        let (k, o) = (split(LEAVES), split(4));
        let env = Env::any();
        let a = leaf(k, &env);
        let b = leaf(choice(LEAVES), &env);
        let c = leafc([0, 2, 5, 9, 10][choice(5)], &env, false);
        let d = leaf([0, 1, 2, 4][choice(4)], &env);
        let (p, q) = (choice(4), choice(4));
        let r = { let m = op(o, a, b); let n = op(p, c, d); op(q, m, n) };
        verify(&r, &env);
    }
    h_c04_sum {
        // n-ary sums: flattening, sorting, merging of like powers of one base
        let k = 3 + split(3);
        let m = split(4);
        let env = Env::any();
        let mut e = Vec::new();
        let mut v = 0.0;
        for i in 0..k {
            let j = match (i, m) { (0, 0) => choice(LEAVES), (0, _) => [0, 3, 9][m - 1], (1, _) => [0, 2, 5, 9, 7][choice(5)], (2, _) => [0, 4, 5, 8][choice(4)], (3, _) => [2, 3][choice(2)], _ => 5 };
            let l = leafc(j, &env, i < 2);
            v += l.v;
            e.push(l.e);
        }
        let r = if choice(2) == 0 { Expr::sum(e) } else { Expr::sum_from_arcs(e.into_iter().map(Arc::new).collect()) };
        verify(&t(r, v), &env);
    }
    h_c04_product {
        let k = 3 + split(3);
        let m = split(4);
        let env = Env::any();
        let mut e = Vec::new();
        let mut v = 1.0;
        for i in 0..k {
            let j = match (i, m) { (0, 0) => choice(LEAVES), (0, _) => [0, 3, 9][m - 1], (1, _) => [0, 2, 5, 9, 6][choice(5)], (2, _) => [0, 4, 7, 8][choice(4)], (3, _) => [2, 3, 9][choice(3)], _ => 10 };
            let l = leafc(j, &env, i < 2);
            v *= l.v;
            e.push(l.e);
        }
        let r = match choice(3) { 0 => Expr::product(e), 1 => Expr::product_from_arcs(e.into_iter().map(Arc::new).collect()), _ => Expr::mul_from_arcs(e.into_iter().map(Arc::new).collect()) };
        verify(&t(r, v), &env);
    }
    h_c04_pow {
        // powers of powers, merged factors with number, fraction and symbolic exponents
        let k = split(LEAVES);
        let form = split(7);
        let env = Env::any();
        let b = leaf(k, &env);
        let (p, q) = (EXPS[choice(EXPS.len())], EXPS[choice(EXPS.len())]);
        let pw = |u: &T, p: f64| t(u.e.clone().pow(p), u.v.powf(p));
        let r = match form {
            0 => pw(&b, p),
            1 => { let u = pw(&b, p); let w = pw(&b, q); t(u.e * w.e, u.v * w.v) }
            2 => { let u = pw(&b, p); pw(&u, q) }
            3 => { let u = pw(&b, p); t(u.e / pw(&b, q).e, u.v / b.v.powf(q)) }
            4 => { let u = pw(&b, p); let w = pw(&b, q); t(u.e + w.e, u.v + w.v) }
            5 => { let u = pw(&b, p); t(b.e.clone() * u.e * b.e, b.v * u.v * b.v) }
            _ => { let c = leaf(1, &env); t(Expr::pow_from_arcs(Arc::new(b.e.clone()), Arc::new(c.e.clone())) * b.e.pow(p), b.v.powf(c.v) * b.v.powf(p)) }
        };
        verify(&r, &env);
    }
    h_c04_npow {
        // number powers are folded
        let b = coef_in(-9, 9);
        let e = coef_in(-6, 9);
        let m = split(3);
        let env = Env::any();
        let (be, ee) = (Expr::number(b), Expr::number(e));
        let r = match m { 0 => Expr::pow_static(be, ee), 1 => Expr::pow_from_arcs(Arc::new(be), Arc::new(ee)), _ => Expr::symbol("x") * Expr::pow_static(be, ee) };
        let v = b.powf(e) * if m == 2 { env.x } else { 1.0 };
        verify(&t(r, v), &env);
    }
    h_c04_tiny {
        // constants of very small and very large magnitude
        let (i, j) = (split(TINY.len()), choice(TINY.len()));
        let env = Env::any();
        let (a, b) = (TINY[i], TINY[j]);
        let (x, y) = (Expr::symbol("x"), Expr::symbol("y"));
        let (p, q) = (Expr::number(a), Expr::number(b));
        let r = match choice(9) {
            0 => t(p * x.clone() / y, a * env.x / env.y),
            1 => t(p * x.clone() + q, a * env.x + b),
            2 => t(p + q, a + b),
            3 => t(p * q * x.clone(), a * b * env.x),
            4 => t(x.clone() / (p * y), env.x / (a * env.y)),
            5 => t(p * x.clone().pow(2.0) + q * x.clone(), a * env.x * env.x + b * env.x),
            6 => t((p / q) * x.clone(), a / b * env.x),
            7 => t(Expr::div_from_arcs(Arc::new(p), Arc::new(x.clone() + y)), a / (env.x + env.y)),
            _ => t(Expr::sum(vec![p, x.clone() * y, q]), a + env.x * env.y + b),
        };
        check(!matches!(r.e.as_number(), Some(0.0)) || r.v == 0.0, 5);
        verify(&r, &env);
    }
    h_c04_ops {
        // every operator implementation between symbols, expressions, numbers and references
        let env = Env::any();
        let (x, y): (Symbol, Symbol) = (symb("x"), symb("y"));
        let (vx, vy) = (env.x, env.y);
        let c = coef();
        let i = (choice(7) as i32) - 3;
        let g = Expr::symbol("y") + Expr::symbol("z");
        let vg = env.y + env.z;
        let a = Arc::new(g.clone());
        macro_rules! four { ($l:expr, $r:expr, $lv:expr, $rv:expr) => { [t($l + $r, $lv + $rv), t($l - $r, $lv - $rv), t($l * $r, $lv * $rv), t($l / $r, $lv / $rv)] } }
        let fi = i as f64;
        let r = match split(29) {
            0 => four!(x, y, vx, vy),
            1 => four!(x, g.clone(), vx, vg),
            2 => four!(x, c, vx, c),
            3 => four!(&x, &y, vx, vy),
            4 => four!(&x, y, vx, vy),
            5 => four!(&x, g.clone(), vx, vg),
            6 => four!(&x, c, vx, c),
            7 => four!(g.clone(), g.clone() * 2.0, vg, vg * 2.0),
            8 => four!(g.clone(), x, vg, vx),
            9 => four!(g.clone(), &x, vg, vx),
            10 => four!(g.clone(), c, vg, c),
            11 => four!(g.clone(), &(Expr::symbol("x")), vg, vx),
            12 => four!(x, &y, vx, vy),
            13 => four!(x, &g, vx, vg),
            14 => four!(c, &x, c, vx),
            15 => four!(&g, Expr::symbol("x"), vg, vx),
            16 => four!(&g, &x, vg, vx),
            17 => four!(&g, x, vg, vx),
            18 => four!(&g, c, vg, c),
            19 => four!(c, g.clone(), c, vg),
            20 => four!(c, x, c, vx),
            21 => four!(c, &g, c, vg),
            22 => four!(Expr::symbol("x"), c, vx, c),
            23 => four!(x, i, vx, fi),
            24 => four!(g.clone(), i, vg, fi),
            25 => four!(i, x, fi, vx),
            26 => four!(i, g.clone(), fi, vg),
            27 => four!(Expr::symbol("x"), a.clone(), vx, vg),
            _ => [t(-x, -vx), t(-&x, -vx), t(-g.clone(), -vg), t(-&g, -vg)],
        };
        verify(&r[choice(4)], &env);
    }
    h_c04_methods {
        // function-building methods of symbols, expressions and shared expressions
        let env = Env::any();
        let x = symb("x");
        let e = Expr::symbol("x");
        let a = Arc::new(Expr::symbol("x"));
        let p = EXPS[choice(EXPS.len())];
        let u = env.x;
        macro_rules! m { ($f:ident, $n:literal) => { [t(x.$f(), f1($n, u).unwrap()), t(e.clone().$f(), f1($n, u).unwrap()), t(a.$f(), f1($n, u).unwrap())] } }
        let r = match split(36) {
            0 => m!(sin, "sin"), 1 => m!(cos, "cos"), 2 => m!(tan, "tan"), 3 => m!(cot, "cot"), 4 => m!(sec, "sec"), 5 => m!(csc, "csc"),
            6 => m!(asin, "asin"), 7 => m!(acos, "acos"), 8 => m!(atan, "atan"), 9 => m!(acot, "acot"), 10 => m!(asec, "asec"), 11 => m!(acsc, "acsc"),
            12 => m!(sinh, "sinh"), 13 => m!(cosh, "cosh"), 14 => m!(tanh, "tanh"), 15 => m!(coth, "coth"), 16 => m!(sech, "sech"), 17 => m!(csch, "csch"),
            18 => m!(asinh, "asinh"), 19 => m!(acosh, "acosh"), 20 => m!(atanh, "atanh"), 21 => m!(acoth, "acoth"), 22 => m!(asech, "asech"), 23 => m!(acsch, "acsch"),
            24 => m!(exp, "exp"), 25 => m!(ln, "ln"), 26 => m!(log10, "log10"), 27 => m!(log2, "log2"), 28 => m!(sqrt, "sqrt"), 29 => m!(cbrt, "cbrt"),
            30 => m!(abs, "abs"), 31 => m!(signum, "signum"), 32 => m!(floor, "floor"), 33 => m!(ceil, "ceil"), 34 => m!(round, "round"),
            _ => [t(x.pow(p), u.powf(p)), t(e.clone().pow(p), u.powf(p)), t(a.pow(p), u.powf(p))],
        };
        verify(&r[choice(3)], &env);
    }
}
