//! C09 tree evaluation substitutes values faithfully.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use symb_anafis::{Expr, symb};
use std::collections::HashMap;
use std::sync::Arc;

type Evals = HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>;
/// evaluators of the opaque functions
fn evals() -> Evals {
    let mut m: Evals = HashMap::new();
    m.insert("uu".to_string(), Arc::new(|a: &[f64]| f1("uu", a[0])));
    m.insert("hh".to_string(), Arc::new(|a: &[f64]| f2("hh", a[0], a[1])));
    m
}
fn verify(r: &T, env: &Env, mask: usize, all: bool, uncustom: bool) {
    let names = ["x", "y", "z"];
    let vals = [env.x, env.y, env.z];
    let e = &r.e;
    let ev = if uncustom { HashMap::new() } else { evals() };
    let out = if choice(2) == 0 {
        let mut m: HashMap<&str, f64> = HashMap::new();
        for i in 0..3 { if mask >> i & 1 == 1 { m.insert(names[i], vals[i]); } }
        e.evaluate(&m, &ev)
    } else {
        let mut m: HashMap<u64, f64> = HashMap::new();
        for i in 0..3 { if mask >> i & 1 == 1 { m.insert(symb(names[i]).id(), vals[i]); } }
        e.evaluate(&m, &ev)
    };
    reach(1);
    for i in 0..3 { if mask >> i & 1 == 1 { check(!out.contains_var(names[i]), 2); } }
    if all {
        match out.as_number() { Some(v) => { if !fin(v) { check(thin(), 3); skip(); } check_eq(v, r.v, 1); } None => check(false, 4) }
    } else {
        let v = val(&out, env);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, r.v, 5);
    }
}
fn subject(k: usize, w: usize, env: &Env) -> T {
    let b = wrap(w, leaf(k, env), env);
    match choice(4) { 0 => b, 1 => op(2, b, leaf(0, env)), 2 => op(0, leaf(9, env), b), _ => op(3, b, leaf(7, env)) }
}
harness! {
    h_c09_full {
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        let s = subject(k, w, &env);
        verify(&s, &env, 7, true, false);
    }
    h_c09_partial {
        let (k, w) = (split(LEAVES), split(WRAPS));
        let mask = choice(7);
        // multiples of 1/8: no value lies within the rounding tolerances of the constructors
        let q = || if w == 11 { expo() } else { coef_in(-4000, 4000) / 8.0 };
        let env = Env { x: q(), y: q(), z: q(), w: 0.0 };
        let s = subject(k, w, &env);
        verify(&s, &env, mask, false, choice(2) == 0);
    }
    h_c09_functions {
        // every built-in function
        let f = super::shapes::F1[split(super::shapes::F1.len())];
        note(f);
        let env = Env::any();
        let a = match choice(4) { 0 => leaf(0, &env), 1 => leaf(10, &env), 2 => leaf(8, &env), _ => leaf(6, &env) };
        verify(&t(Expr::func(f, a.e), f1(f, a.v).unwrap()), &env, 7, true, true);
    }
    h_c09_functions2 {
        let f = super::shapes::F2[split(super::shapes::F2.len())];
        note(f);
        let env = Env::any();
        let a = match f { "atan2" | "log" | "beta" => match choice(3) { 0 => leaf(0, &env), 1 => num(coef_in(1, 9)), _ => leaf(10, &env) }, _ => num(choice(5) as f64) };
        let b = match choice(3) { 0 => leaf(1, &env), 1 => leaf(7, &env), _ => leaf(8, &env) };
        verify(&t(Expr::func_multi(f, vec![a.e, b.e]), f2(f, a.v, b.v).unwrap()), &env, 7, true, true);
    }
    h_c09_constants {
        // mathematical constants have their value unless they are assigned one
        let env = Env::any();
        let (n, v) = [("pi", std::f64::consts::PI), ("e", std::f64::consts::E), ("PI", std::f64::consts::PI), ("E", std::f64::consts::E)][split(4)];
        let s = op(2, t(Expr::symbol(n), v), leaf(0, &env));
        if choice(2) == 0 { verify(&s, &env, 7, true, true); }
        let mut m: HashMap<&str, f64> = HashMap::new();
        m.insert(n, env.z);
        m.insert("x", env.x);
        match s.e.evaluate(&m, &HashMap::new()).as_number() { Some(v) => check_eq(v, env.z * env.x, 6), None => check(false, 4) }
    }
}
