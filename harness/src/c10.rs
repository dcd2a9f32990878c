//! C10 substitution replaces every free occurrence.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use symb_anafis::Expr;
use symb_anafis::visitor::ExprView;

fn verify(r: &T, env: &Env) {
    let v = val(&r.e, env);
    reach(1);
    if !fin(v) { check(thin(), 3); skip(); }
    check_eq(v, r.v, 1);
}
const REPL: usize = 9;
fn repl(k: usize, env: &Env) -> T {
    match k {
        0 => num(coef()),
        1 => leaf(1, env),
        2 => leaf(7, env),
        3 => leaf(11, env),
        4 => op(0, leaf(1, env), num(1.0)),
        5 => leaf(3, env),
        6 => leaf(9, env),
        7 => leaf(8, env),
        _ => op(3, leaf(0, env), leaf(1, env)),
    }
}
/// symbols met by an own traversal of the visible structure
fn occurs(e: &Expr, n: &str) -> bool {
    match e.view() {
        ExprView::Number(_) => false,
        ExprView::Symbol(s) => s == n,
        ExprView::Function { args, .. } => args.iter().any(|a| occurs(a, n)),
        ExprView::Sum(t) => t.iter().any(|a| occurs(a, n)),
        ExprView::Product(t) => t.iter().any(|a| occurs(a, n)),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => occurs(a, n) || occurs(b, n),
        ExprView::Derivative { inner, .. } => occurs(inner, n),
    }
}
fn size(e: &Expr) -> usize {
    1 + match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => 0,
        ExprView::Function { args, .. } => args.iter().map(|a| size(a)).sum(),
        ExprView::Sum(t) => t.iter().map(|a| size(a)).sum(),
        ExprView::Product(t) => t.iter().map(|a| size(a)).sum(),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => size(a) + size(b),
        ExprView::Derivative { inner, .. } => size(inner),
    }
}
/// the expression under test with the value it has when x stands for `v`
fn subject(k: usize, w: usize, env: &Env, v: f64) -> T {
    let e2 = Env { x: v, ..*env };
    let a = leaf(k, &e2);
    let b = wrap(w, a, &e2);
    match choice(4) { 0 => b, 1 => op(2, b, leaf(0, &e2)), 2 => op(0, leaf(9, &e2), b), _ => op(3, b, leaf(7, &e2)) }
}
harness! {
    h_c10_substitute {
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        let r = repl(choice(REPL), &env);
        let s = subject(k, w, &env, r.v);
        let e = s.e.substitute("x", &r.e);
        check(!occurs(&e, "x") || occurs(&r.e, "x"), 2);
        check(!e.contains_var("x") || r.e.contains_var("x"), 4);
        verify(&t(e, s.v), &env);
    }
    h_c10_other_variable {
        // a variable that is not x, and one that does not occur
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        let c = coef();
        let e2 = Env { y: c, ..env };
        let s = wrap(w, leaf(k, &e2), &e2);
        let e = s.e.substitute("y", &Expr::number(c));
        check(!occurs(&e, "y"), 2);
        let same = e.substitute("w", &Expr::symbol("x"));
        check(same == e, 4);
        verify(&t(same, s.v), &env);
    }
    h_c10_map {
        // mapping visits every node, bottom-up: renaming, identity, and doubling every x
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        match choice(4) {
            0 => {
                let s = subject(k, w, &env, env.x);
                let e = s.e.map(|n| n.clone());
                check(e == s.e, 2);
                verify(&t(e, s.v), &env);
            }
            1 => {
                let s = subject(k, w, &env, env.z);
                let e = s.e.map(|n| if matches!(n.view(), ExprView::Symbol(ref q) if q == "x") { Expr::symbol("z") } else { n.clone() });
                check(!occurs(&e, "x"), 2);
                verify(&t(e, s.v), &env);
            }
            2 => {
                let s = subject(k, w, &env, 2.0 * env.x);
                let e = s.e.map(|n| if matches!(n.view(), ExprView::Symbol(ref q) if q == "x") { 2.0 * n.clone() } else { n.clone() });
                verify(&t(e, s.v), &env);
            }
            _ => {
                // one function replaced by another
                let a = leaf(k, &env);
                let s = wrap(w, t(Expr::func("cos", a.e), f1("exp", a.v).unwrap()), &env);
                let e = s.e.map(|n| match n.view() { ExprView::Function { name: "cos", args } => Expr::func("exp", (*args[0]).clone()), _ => n.clone() });
                verify(&t(e, s.v), &env);
            }
        }
    }
    h_c10_fold {
        // folding meets every node of the visible structure exactly once
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        let s = subject(k, w, &env, env.x);
        check(s.e.fold(0usize, |a, _| a + 1) == size(&s.e), 1);
        for q in ["x", "y", "z"] {
            let n = s.e.fold(0, |a, n| a + if matches!(n.view(), ExprView::Symbol(ref p) if p == q) { 1 } else { 0 });
            check((n > 0) == occurs(&s.e, q), 2);
        }
        reach(1);
    }
}
