//! C11 structural queries agree with the visible structure.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use std::borrow::Cow;
use std::collections::HashSet;
use std::sync::Arc;
use symb_anafis::visitor::{ExprView, ExprVisitor, NodeCounter, VariableCollector, walk_expr};
use symb_anafis::{Expr, symb};

/// own traversal: nodes, depth, symbols in order of appearance, numbers, functions
#[derive(Default)]
struct S { n: usize, d: usize, vars: Vec<String>, funs: Vec<String>, poly: bool }
fn scan(e: &Expr) -> S {
    let mut s = S::default();
    let mut kid = |s: &mut S, k: &Expr| {
        let c = scan(k);
        s.n += c.n;
        s.d = s.d.max(c.d);
        s.vars.extend(c.vars);
        s.funs.extend(c.funs);
        s.poly |= c.poly;
    };
    match e.view() {
        ExprView::Number(_) => {}
        ExprView::Symbol(v) => s.vars.push(v.into_owned()),
        ExprView::Function { name, args } => { s.funs.push(name.to_owned()); for a in args { kid(&mut s, a); } }
        ExprView::Sum(t) => { s.poly |= matches!(t, Cow::Owned(_)); for a in t.iter() { kid(&mut s, a); } }
        ExprView::Product(t) => for a in t.iter() { kid(&mut s, a); },
        ExprView::Div(a, b) | ExprView::Pow(a, b) => { kid(&mut s, a); kid(&mut s, b); }
        ExprView::Derivative { inner, var, .. } => { s.vars.push(var.to_owned()); kid(&mut s, inner); }
    }
    s.n += 1;
    s.d += 1;
    s
}
fn subject() -> T {
    let (k, w) = (split(LEAVES), split(WRAPS));
    let env = Env::any();
    let b = wrap(w, leaf(k, &env), &env);
    match choice(5) {
        0 => b,
        1 => op(2, b, leaf(0, &env)),
        2 => op(0, leaf(9, &env), b),
        3 => op(3, b, leaf(7, &env)),
        _ => { let q = wrap(1, b.clone(), &env); op(0, op(2, q.clone(), q), num(coef())) }
    }
}
struct Rec { vars: Vec<String>, funs: Vec<String>, n: usize, into: bool }
impl ExprVisitor for Rec {
    fn visit_number(&mut self, _: f64) -> bool { self.n += 1; true }
    fn visit_symbol(&mut self, name: &str) -> bool { self.n += 1; self.vars.push(name.to_owned()); true }
    fn visit_function(&mut self, name: &str, _: &[Arc<Expr>]) -> bool { self.n += 1; self.funs.push(name.to_owned()); self.into }
    fn visit_binary(&mut self, _: &str, _: &Expr, _: &Expr) -> bool { self.n += 1; true }
    fn visit_sum(&mut self, _: &[Arc<Expr>]) -> bool { self.n += 1; true }
    fn visit_product(&mut self, _: &[Arc<Expr>]) -> bool { self.n += 1; true }
    fn visit_derivative(&mut self, _: &Expr, var: &str, _: u32) -> bool { self.n += 1; self.vars.push(var.to_owned()); true }
}
/// symbols outside every function argument
fn outside(e: &Expr, out: &mut Vec<String>) {
    match e.view() {
        ExprView::Number(_) | ExprView::Function { .. } => {}
        ExprView::Symbol(v) => out.push(v.into_owned()),
        ExprView::Sum(t) => for a in t.iter() { outside(a, out) },
        ExprView::Product(t) => for a in t.iter() { outside(a, out) },
        ExprView::Div(a, b) | ExprView::Pow(a, b) => { outside(a, out); outside(b, out) }
        ExprView::Derivative { inner, var, .. } => { out.push(var.to_owned()); outside(inner, out) }
    }
}
fn set(v: &[String]) -> HashSet<String> { v.iter().cloned().collect() }

harness! {
    h_c11_counts {
        let e = subject().e;
        let s = scan(&e);
        check(e.node_count() == s.n, 1);
        check(e.max_depth() == s.d, 2);
        let dc = e.deep_clone();
        check(dc == e && dc.node_count() == s.n, 4);
        reach(1);
    }
    h_c11_vars {
        let e = subject().e;
        let s = scan(&e);
        let vs = set(&s.vars);
        check(e.variables() == vs, 1);
        for q in ["x", "y", "z", "w", "never_seen_name"] {
            check(e.contains_var(q) == vs.contains(q), 2);
        }
        for q in ["x", "y", "z", "w"] {
            check(e.contains_var_id(symb(q).id()) == vs.contains(q), 4);
        }
        // free variables: something outside the excluded set occurs
        for ex in [vec![], vec!["x"], vec!["y"], vec!["x", "y"], vec!["x", "z"], vec!["x", "y", "z"]] {
            let ex: HashSet<String> = ex.into_iter().map(str::to_owned).collect();
            check(e.has_free_variables(&ex) == s.vars.iter().any(|v| !ex.contains(v)), 5);
        }
        reach(1);
    }
    h_c11_walk {
        let e = subject().e;
        let s = scan(&e);
        let mut r = Rec { vars: vec![], funs: vec![], n: 0, into: true };
        walk_expr(&e, &mut r);
        check(set(&r.vars) == set(&s.vars) && set(&r.funs) == set(&s.funs), 1);
        let mut c = VariableCollector::default();
        walk_expr(&e, &mut c);
        check(c.variable_names() == set(&s.vars), 2);
        if !s.poly {
            let mut nc = NodeCounter::default();
            walk_expr(&e, &mut nc);
            check(nc.count == s.n && r.n == s.n, 4);
            check(r.vars == s.vars && r.funs == s.funs, 5);
        }
        let mut r = Rec { vars: vec![], funs: vec![], n: 0, into: false };
        walk_expr(&e, &mut r);
        let mut o = vec![];
        outside(&e, &mut o);
        check(set(&r.vars) == set(&o), 6);
        reach(1);
    }
    h_c11_derivative {
        // unevaluated derivatives mention their variable
        let env = Env::any();
        let k = split(4);
        let d = Expr::derivative(Expr::func("uu", Expr::symbol("x")), "x", 1 + split(3) as u32);
        let e = match k {
            0 => d,
            1 => d * coef() + Expr::symbol("y"),
            2 => d.clone().pow(2.0) + d * coef() + 1.0,
            _ => Expr::derivative(Expr::func_multi("hh", vec![Expr::symbol("z"), Expr::symbol("y")]) + d, "y", 1),
        };
        let _ = env;
        let s = scan(&e);
        let vs = set(&s.vars);
        check(e.node_count() == s.n && e.max_depth() == s.d, 1);
        check(e.variables() == vs, 2);
        for q in ["x", "y", "z", "w"] {
            check(e.contains_var(q) == vs.contains(q) && e.contains_var_id(symb(q).id()) == vs.contains(q), 4);
        }
        let mut c = VariableCollector::default();
        walk_expr(&e, &mut c);
        check(c.variable_names() == vs, 5);
        reach(1);
    }
    h_c11_numbers {
        // number queries at every number
        let e = Expr::number(coef());
        let v = match e.view() { ExprView::Number(n) => n, _ => { check(false, 1); skip() } };
        check_eq(e.as_number().unwrap(), v, 2);
        check(e.is_zero_num() == (v == 0.0), 4);
        check(e.is_one_num() == (v == 1.0), 5);
        check(e.is_neg_one_num() == (v == -1.0), 6);
        check(e.variables().is_empty() && !e.contains_var("x"), 7);
        check(e.view().is_number() && !e.view().is_symbol() && e.view().as_symbol().is_none(), 8);
        check(Expr::symbol("x").as_number().is_none() && Expr::symbol("x").view().as_symbol() == Some("x"), 9);
        reach(1);
    }
}
