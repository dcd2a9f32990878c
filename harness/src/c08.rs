//! C08 every memory access of the evaluators stays inside its buffer and reads what was written
use super::cshapes;
use super::prim::*;
use super::shapes::*;
use symb_anafis::{CompiledEvaluator, Context, Expr, UserFunction};

/// evaluates by every route; the engine reports accesses outside an object and reads of memory never written
fn run(e: &Expr, names: &[&str], ctx: Option<&Context>, rows: usize, provided: usize, point: Option<[f64; 3]>) {
    let ev = match CompiledEvaluator::compile(e, names, ctx) { Ok(d) => d, Err(_) => return };
    let vals: Vec<f64> = match point { Some(p) => p.to_vec(), None => (0..names.len()).map(|_| real()).collect() };
    // buffers of a caller, of any length and capacity (buffers are clean for the tool, so before poison())
    let mut own = match provided {
        0 => None,
        1 => Some(Vec::new()),
        2 => Some(Vec::with_capacity(ev.stack_size().saturating_sub(1))),
        3 => Some(Vec::with_capacity(ev.stack_size() / 2 + 1)),
        _ => { let mut v = Vec::with_capacity(ev.stack_size() / 2 + 4); v.resize(3, wide::f64x4::splat(1.0)); Some(v) }
    };
    let native = poison();
    let s = ev.evaluate(&vals);
    let cols: Vec<Vec<f64>> = (0..names.len()).map(|i| vec![vals[i]; rows]).collect();
    let c: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
    let mut out = vec![0.25; rows];
    check(ev.eval_batch(&c, &mut out, own.as_mut()).is_ok(), 8);
    // a read of stale memory shows natively as a NaN with the fill pattern
    if native { for o in &out { check((s == s) == (*o == *o) || thin(), 2); } }
}
/// `d` values wait on the stack while `e` is evaluated
fn deep(e: Expr, d: usize) -> Expr {
    let mut r = e;
    for _ in 0..d { r = z() * Expr::func("sin", r); }
    r
}
fn wrap(k: usize, e: Expr, i: usize) -> Expr {
    match k {
        0 => y() / (x() + e),
        1 => (x() + y()).pow(e),
        2 => Expr::func_multi("besselj", vec![n(0.0), e]) * y(),
        3 => Expr::func("sin", x()) * (y() + e),
        4 => x() - y() * Expr::func("sin", e),
        5 => (x() + e) / (y() - n(i as f64)),
        6 => n(1.0) / (x() * y() + Expr::func("cos", e)) - z(),
        7 => Expr::func("exp", x() * (y() + e)) - n(1.0),
        8 => { let p = Expr::func("sin", e); n(2.0) + n(3.0) * p.clone() + n(5.0) * p.clone().pow(2.0) - n(7.0) * p.pow(4.0) }
        9 => Expr::func_multi("log", vec![y(), x() / e]),
        10 => Expr::func_multi("assoc_legendre", vec![n(2.0), n(1.0), e]) + y(),
        11 => Expr::func_multi("spherical_harmonic", vec![n(1.0), n(0.0), x(), e]) * z(),
        12 => (x() * y() + z() * e).pow(2.5),
        _ => Expr::product(vec![x(), y() + n(1.0), z() - n(1.0), Expr::func("tan", e)]),
    }
}
const WRAPS: usize = 14;
const NM: [&str; 3] = ["x", "y", "z"];
fn at_limits(e: Expr, ds: &[usize]) {
    let d = ds[choice(ds.len())];
    run(&deep(e, d), &NM, None, 5, 0, None);
}
harness! {
    h_c08_fun1 { at_limits(cshapes::fun1(), &[0, 48, 64]); }
    h_c08_fun2 { at_limits(cshapes::fun2(), &[0, 48, 64]); }
    h_c08_pow { at_limits(cshapes::pow(), &[0, 48, 64]); }
    h_c08_prod { at_limits(cshapes::prod(), &[64]); }
    h_c08_powp { at_limits(cshapes::powp(), &[0, 48, 64]); }
    h_c08_expm1 { at_limits(cshapes::expm1(), &[0, 48, 64]); }
    h_c08_poly { at_limits(cshapes::poly(), &[64]); }
    h_c08_cse { at_limits(cshapes::cse(), &[64]); }
    h_c08_nest {
        // every kind of instruction nested to every depth around the limits
        let k = split(WRAPS);
        let j = split(2);
        let d = [1, 2, 5, 12, 16, 20, 24, 28, 31, 32, 33, 40, 44, 46, 47, 48, 49, 50, 56, 60, 62, 63, 64, 65, 66, 70][choice(26)];
        let mut e = x();
        for i in 0..d { e = wrap(match j { 0 => k, _ => (k + i) % WRAPS }, e, i); }
        run(&e, &NM, None, 5, 0, None);
    }
    h_c08_buffer {
        // buffers supplied by the caller
        let d = [2, 40, 62, 63, 64, 65, 70, 100, 130][split(9)];
        let p = choice(5);
        let e = deep(x() * y(), d);
        run(&e, &NM, None, 9, p, None);
        // the same buffer reused for a larger program
        let (Ok(a), Ok(b)) = (CompiledEvaluator::compile(&deep(x(), d), &NM, None), CompiledEvaluator::compile(&deep(x(), d + [1, 30, 70][choice(3)]), &NM, None)) else { check(false, 9); return };
        let c = [0.5; 4];
        let mut buf = Vec::new();
        let mut out = [0.0; 4];
        for ev in [&a, &b, &a] { check(ev.eval_batch(&[&c, &c, &c], &mut out, Some(&mut buf)).is_ok(), 8); }
    }
    h_c08_slots {
        // many values kept for reuse, around the limits of the inline cache
        let k = [1, 2, 5, 30, 31, 32, 33, 34, 40, 62, 63, 64, 65, 66][split(14)];
        let form = choice(4);
        let s = |i: usize| Expr::func(if i % 2 == 0 { "sin" } else { "exp" }, x() * n(i as f64 + 1.0));
        let e = match form {
            // all live at once
            0 => Expr::sum((0..k).map(s).collect()) * Expr::func("cos", Expr::sum((0..k).map(|i| s(i) * n(2.0) * y()).collect())),
            // one after the other
            1 => Expr::sum((0..k).map(|i| s(i) * Expr::func("cos", s(i) * y())).collect()),
            // nested
            2 => { let mut e = x(); for _ in 0..k.min(20) { let q = Expr::func("sin", e); e = q.clone() * Expr::func("cos", q * y()); } e }
            // with a deep stack
            _ => deep(Expr::product((0..k).map(s).collect()) + Expr::func("cos", Expr::sum((0..k).map(|i| s(i) / z()).collect())), k),
        };
        run(&e, &NM, None, 9, 0, None);
    }
    h_c08_params {
        // parameters that are missing, unused or many
        let m = split(8);
        let names = ["x", "y", "z", "w", "a", "b", "c", "d"];
        let e = if m == 0 { n(coef()) } else { Expr::sum((0..m).map(|i| Expr::symbol(names[i]) * n(i as f64 + 2.0)).collect()) };
        let k = [m, m + 1, 8][choice(3)];
        let Ok(ev) = CompiledEvaluator::compile(&e, &names[..k], None) else { check(false, 9); return };
        let have = [0, k / 2, k, k + 1][choice(4)];
        let vals: Vec<f64> = (0..have).map(|_| real()).collect();
        let rows = [0, 1, 4, 5][choice(4)];
        let cols: Vec<Vec<f64>> = (0..k).map(|_| (0..rows).map(|_| 1.5).collect()).collect();
        let c: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
        let _ = poison();
        let _ = ev.evaluate(&vals);
        let mut out = vec![0.0; rows];
        check(k == 0 || ev.eval_batch(&c, &mut out, None).is_ok(), 8);
        // without columns the batch is one row
        if k == 0 { check(ev.eval_batch(&[], &mut out, None).is_ok() == (rows >= 1), 7); }
    }
    h_c08_user {
        let k = split(6);
        let d = [1, 40, 48, 50][choice(4)];
        let ctx = Context::new().with_function("g", UserFunction::new(1..=2).body(move |a| {
            let a0 = (*a[0]).clone();
            match k { 0 => a0.clone() * a0.clone() + n(1.0) / a0, 1 => wrap(1, a0, 0), 2 => wrap(8, a0, 0), 3 => n(7.0), 4 => wrap(7, a0, 1), _ => deep(a0, 30) }
        }));
        let e = deep(Expr::func("g", x()) + Expr::func("g", y() + Expr::func("g", x())), d);
        run(&e, &NM, Some(&ctx), 5, 0, None);
    }
}
