//! C19 user-defined functions obey their registered definitions.
//! A registered partial is checked against reference derivatives by choosing bodies whose derivatives
//! are known: the partial of argument i is written out by hand as an expression in the arguments.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use std::sync::Arc;
use symb_anafis::{CompiledEvaluator, Context, Diff, Expr, Simplify, UserFunction, symb};

fn a(v: &[Arc<Expr>], i: usize) -> Expr { (*v[i]).clone() }
fn f(n: &str, v: Vec<Expr>) -> Expr { Expr::func_multi(n, v) }
/// argument expressions with value and derivative by x
fn arg(k: usize, env: &Env) -> (Expr, f64, f64) {
    let n = Expr::number;
    let (x, y) = (|| Expr::symbol("x"), || Expr::symbol("y"));
    match k {
        0 => (x(), env.x, 1.0),
        1 => (y(), env.y, 0.0),
        2 => { let c = coef_in(-2, 2); (n(c) * x(), c * env.x, c) }
        3 => (x() * y(), env.x * env.y, env.y),
        4 => (x().pow(2.0) + x() + 1.0, env.x * env.x + env.x + 1.0, 2.0 * env.x + 1.0),
        5 => (Expr::func("sin", x()), env.x.sin(), env.x.cos()),
        6 => { let c = coef_in(-2, 2); (n(c), c, 0.0) }
        _ => (Expr::func("uu", x()), uf(OPAQUE, env.x, 0.0), uf(OPAQUE + 10, env.x, 0.0)),
    }
}
const ARGS: usize = 8;
/// f(a, b, c) = a b^2 + 3 c with hand-written partials; which of them are registered
fn fun3(which: usize) -> UserFunction {
    let mut u = UserFunction::new(3..=3);
    let reg = |u: UserFunction, i: usize| match i {
        0 => u.partial(0, |v| a(v, 1).pow(2.0)).unwrap(),
        1 => u.partial(1, |v| Expr::number(2.0) * a(v, 0) * a(v, 1)).unwrap(),
        _ => u.partial(2, |_| Expr::number(3.0)).unwrap(),
    };
    let orders: [[usize; 3]; 4] = [[0, 1, 2], [2, 1, 0], [1, 2, 0], [1, 0, 2]];
    for i in orders[which] { u = reg(u, i); }
    u
}
fn body2() -> UserFunction { UserFunction::new(2..=2).body(|v| a(v, 0).pow(2.0) - Expr::number(2.0) * a(v, 1) + a(v, 0) * a(v, 1)) }
fn body2_v(p: f64, q: f64) -> f64 { p * p - 2.0 * q + p * q }
fn body1() -> UserFunction { UserFunction::new(1..=1).body(|v| Expr::func("uu", a(v, 0)) + a(v, 0)) }
/// an expression with one-argument "g1" and two-argument "g2" calls, and its value
fn subject(k: usize, env: &Env, uu: fn(f64) -> f64) -> T {
    let x = || leaf(0, env);
    let y = || leaf(1, env);
    let g1 = |p: T| t(f("g1", vec![p.e]), uu(p.v) + p.v);
    let g2 = |p: T, q: T| t(f("g2", vec![p.e, q.e]), body2_v(p.v, q.v));
    let c = || num(coef_in(-2, 2));
    match k {
        0 => g2(x(), y()),
        1 => g2(y(), x()),
        2 => g2(g2(x(), y()), c()),
        3 => g2(c(), g2(y(), x())),
        4 => g1(g1(x())),
        5 => g2(g1(x()), g1(y())),
        6 => g1(g2(x(), c())),
        7 => { let g = g1(x()); op(0, op(0, op(2, g.clone(), g.clone()), op(2, num(2.0), g)), c()) }
        8 => op(3, g2(x(), y()), op(0, num(1.0), op(2, g1(x()), g1(x())))),
        9 => op(1, op(2, y(), g1(op(0, x(), c()))), g2(x(), x())),
        10 => { let g = g2(x(), y()); t(Expr::func("sin", g.e), g.v.sin()) }
        11 => op(0, g1(leaf(9, env)), g1(leaf(10, env))),
        12 => { let g = g1(x()); t(g.e.pow(3.0) + Expr::symbol("y"), g.v * g.v * g.v + env.y) }
        _ => g2(op(3, x(), y()), op(2, c(), g2(c(), c()))),
    }
}
const SUBJ: usize = 14;
fn ctx() -> Context { Context::new().with_function("g1", body1()).with_function("g2", body2()) }
fn scan(e: &Expr) -> Vec<String> { e.fold(vec![], |mut v, n| { if let symb_anafis::visitor::ExprView::Function { name, .. } = n.view() { v.push(name.to_owned()); } v }) }

harness! {
    h_c19_partials {
        let (i, j, k) = (split(ARGS), split(ARGS), split(4));
        let env = Env::any();
        let (ea, va, da) = arg(i, &env);
        let (eb, vb, db) = arg(j, &env);
        let (ec, vc, dc) = arg([0, 4, 6, 7][choice(4)], &env);
        let _ = vc;
        let e = f("ff", vec![ea, eb, ec]);
        let want = vb * vb * da + 2.0 * va * vb * db + 3.0 * dc;
        if !fin(want) { skip(); }
        let d = match choice(3) {
            0 => Diff::new().user_fn("ff", fun3(k)).skip_simplification(true).differentiate(&e, &symb("x")),
            1 => Diff::new().user_fn("ff", fun3(k)).differentiate(&e, &symb("x")),
            _ => Diff::new().with_context(&Context::new().with_function("ff", fun3(k))).skip_simplification(true).differentiate(&e, &symb("x")),
        };
        let d = match d { Ok(d) => d, Err(_) => { check(false, 2); skip() } };
        let v = val(&d, &env);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, want, 1);
    }
    h_c19_missing_partial {
        // hh has only one partial registered: the other stays symbolic, in its own position
        let (i, j) = (split(ARGS), split(ARGS));
        let env = Env::any();
        let (ea, va, da) = arg(i, &env);
        let (eb, vb, db) = arg(j, &env);
        let which = choice(3);
        let u = match which {
            0 => UserFunction::new(2..=2).partial(0, |v| f("uu", vec![a(v, 0)]) * a(v, 1)).unwrap(),
            1 => UserFunction::any_arity().partial(1, |v| f("uu", vec![a(v, 0)]) * a(v, 1)).unwrap(),
            _ => UserFunction::new(1..=3),
        };
        let mine = uf(OPAQUE, va, 0.0) * vb;
        let p0 = if which == 0 { mine } else { uf(OPAQUE + 12, va, vb) };
        let p1 = if which == 1 { mine } else { uf(OPAQUE + 102, va, vb) };
        // two calls and a factor around them
        let e = Expr::symbol("x") * f("hh", vec![ea, eb]);
        let want = uf(OPAQUE + 2, va, vb) + env.x * (p0 * da + p1 * db);
        if !fin(want) { skip(); }
        let d = match Diff::new().user_fn("hh", u).skip_simplification(choice(2) == 0).differentiate(&e, &symb("x")) { Ok(d) => d, Err(_) => { check(false, 2); skip() } };
        let v = val(&d, &env);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, want, 1);
    }
    h_c19_second {
        // second derivative through partials that are themselves calls of user functions:
        // p(u)' = q(u), q(u)' = -p(u)
        let k = split(ARGS);
        let env = Env::any();
        let (ea, va, da) = arg(k, &env);
        if [4, 5, 7].contains(&k) { skip(); } // arguments that are not linear in x
        let d = Diff::new()
            .user_fn("vv", UserFunction::new(1..=1).partial(0, |v| f("uu", vec![a(v, 0)])).unwrap())
            .user_fn("uu", UserFunction::new(1..=1).partial(0, |v| -f("vv", vec![a(v, 0)])).unwrap())
            .skip_simplification(choice(2) == 0);
        let e = f("vv", vec![ea]);
        let d1 = d.differentiate(&e, &symb("x")).unwrap();
        let d2 = d.differentiate(&d1, &symb("x")).unwrap();
        let want = -uf(OPAQUE + 1, va, 0.0) * da * da;
        let v = val(&d2, &env);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, want, 1);
    }
    h_c19_compile {
        let k = split(SUBJ);
        let env = Env::any();
        let c = ctx().with_function("uu", UserFunction::new(1..=1).body(|v| a(v, 0).pow(3.0) - 1.0));
        let s = subject(k, &env, |p| p * p * p - 1.0);
        let ev = match CompiledEvaluator::compile(&s.e, &["y", "x"], Some(&c)) { Ok(e) => e, Err(_) => { check(false, 2); skip() } };
        let v = ev.evaluate(&[env.y, env.x]);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, s.v, 1);
    }
    h_c19_simplify {
        let k = split(SUBJ);
        let env = Env::any();
        let s = subject(k, &env, |p| uf(OPAQUE, p, 0.0));
        let r = match Simplify::new().user_fn("g1", body1()).user_fn("g2", body2()).domain_safe(true).simplify(&s.e) { Ok(e) => e, Err(_) => { check(false, 2); skip() } };
        let v = val(&r, &env);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, s.v, 1);
    }
    h_c19_arity {
        // a function of lo..=hi arguments called with n
        let lo = split(4) as i64;
        let hi = lo + split(3) as i64;
        let n = split(5);
        let env = Env::any();
        let sum = |v: &[Arc<Expr>]| v.iter().enumerate().fold(Expr::number(7.0), |s, (i, e)| s + Expr::number((i + 1) as f64) * (**e).clone());
        // out-of-range argument lists would make the body and the partials panic
        let (l, h) = (lo as usize, hi as usize);
        let mut u = UserFunction::new(l..=h).body(move |v| { if v.len() < l || v.len() > h { panic!() } sum(v) });
        check(u.accepts_arity(n) == (l <= n && n <= h), 1);
        for i in 0..5usize {
            let r = u.clone().partial(i, move |v| { if v.len() < l || v.len() > h { panic!() } Expr::number((i + 1) as f64) });
            check(r.is_ok() == (i < h), 2);
            if let Ok(r) = r { u = r; }
            check(u.has_partial(i) == (i < h), 4);
        }
        check(u.has_body(), 5);
        let ok = l <= n && n <= h;
        let args: Vec<Expr> = (0..n).map(|i| [Expr::symbol("x"), Expr::symbol("y"), Expr::number(2.0), Expr::symbol("z")][i.min(3)].clone()).collect();
        let vals = [env.x, env.y, 2.0, env.z, env.z];
        let e = f("ff", args);
        let mut want = 7.0;
        for i in 0..n { want += (i + 1) as f64 * vals[i.min(3)]; }
        let c = Context::new().with_function("ff", u.clone());
        match CompiledEvaluator::compile(&e, &["x", "y", "z"], Some(&c)) {
            Ok(ev) => { check(ok, 6); check_eq(ev.evaluate(&[env.x, env.y, env.z]), want, 7); }
            Err(_) => check(!ok, 8),
        }
        let s = Simplify::new().user_fn("ff", u.clone()).simplify(&e).unwrap();
        check((scan(&s).is_empty()) == ok, 9);
        if ok { check_eq(val(&s, &env), want, 10); } else { check(s == e, 11); }
        if n > 0 {
            let d = Diff::new().user_fn("ff", u).skip_simplification(true).differentiate(&e, &symb("x")).unwrap();
            if ok { check_eq(val(&d, &env), 1.0, 12); } else { check(scan(&d).contains(&"ff".to_owned()), 13); }
        }
        reach(1);
    }
    h_c19_isolation {
        // definitions in one context are invisible in others, also through clones and overrides
        let env = Env::any();
        let (ca, cb) = (coef(), coef());
        let mk = |c: f64| UserFunction::new(1..=1).body(move |v| a(v, 0) * Expr::number(c)).partial(0, move |_| Expr::number(c)).unwrap();
        let c1 = Context::new().with_function("ff", mk(ca));
        let c2 = c1.clone().with_function("ff", mk(cb));
        let c3 = c1.clone().with_function("gg", mk(cb));
        let c0 = Context::new();
        let mut c4 = c1.clone();
        check(c4.remove_function("ff"), 2);
        check(c1.has_function("ff") && !c0.has_function("ff") && !c1.has_function("gg") && c3.has_function("gg") && c3.has_function("ff") && !c4.has_function("ff"), 4);
        let e = f("ff", vec![Expr::symbol("x").pow(2.0)]);
        let x2 = env.x * env.x;
        let run = |c: &Context| CompiledEvaluator::compile(&e, &["x"], Some(c)).map(|v| v.evaluate(&[env.x]));
        match choice(4) {
            0 => { check_eq(run(&c1).unwrap(), ca * x2, 5); check_eq(run(&c2).unwrap(), cb * x2, 6); check_eq(run(&c3).unwrap(), ca * x2, 7); }
            1 => { check(run(&c0).is_err() && run(&c4).is_err(), 8); check(CompiledEvaluator::compile(&e, &["x"], None).is_err(), 9); }
            2 => {
                let d = |c: &Context| val(&Diff::new().with_context(c).skip_simplification(true).differentiate(&e, &symb("x")).unwrap(), &env);
                check_eq(d(&c1), ca * 2.0 * env.x, 10);
                check_eq(d(&c2), cb * 2.0 * env.x, 11);
                check_eq(d(&c1), ca * 2.0 * env.x, 12);
            }
            _ => {
                // the builder's own definition wins over the context's, for that builder only
                let d = Diff::new().with_context(&c1).user_fn("ff", mk(cb)).skip_simplification(true).differentiate(&e, &symb("x")).unwrap();
                check_eq(val(&d, &env), cb * 2.0 * env.x, 13);
                check_eq(run(&c1).unwrap(), ca * x2, 14);
                let s = Simplify::new().simplify(&e).unwrap();
                check(scan(&s).contains(&"ff".to_owned()), 15);
            }
        }
        reach(1);
    }
}
