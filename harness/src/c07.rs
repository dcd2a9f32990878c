//! C07 batch (SIMD) evaluation equals scalar evaluation row by row
use super::cshapes;
use super::prim::*;
use super::shapes::*;
use symb_anafis::{CompiledEvaluator, Expr};

const FIX: [f64; 27] = [0.25, 1.5, 3.0, 0.75, 2.5, 1.25, 4.0, 0.5, 1.75, 2.0, 0.125, 3.5, 2.25, 5.0, 0.375, 6.0, 1.125, 2.75, 7.0, 0.625, 1.375, 3.25, 8.0, 0.875, 2.125, 4.5, 9.0];
fn batch(ev: &CompiledEvaluator, cols: &[Vec<f64>], out: &mut [f64]) -> bool {
    let c: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
    ev.eval_batch(&c, out, None).is_ok()
}
fn agree(a: f64, b: f64, id: u32) {
    // undefined rows are undefined in both
    if !fin(b) { check(thin() || !fin(a), id + 1); return; }
    if !fin(a) { check(thin(), id + 2); return; }
    check_eq(a, b, id);
}
/// one row of `n` is arbitrary, the others are fixed points
fn verify(e: &Expr, n: usize, row: usize) {
    let (p, q, r) = (real(), real(), real());
    let ev = match CompiledEvaluator::compile(e, &["x", "y", "z"], None) { Ok(d) => d, Err(_) => { check(false, 9); return; } };
    let col = |k: usize, v: f64| -> Vec<f64> { (0..n).map(|i| if i == row { v } else { FIX[(3 * i + k) % 27] }).collect() };
    let cols = [col(0, p), col(1, q), col(2, r)];
    let mut out = vec![-77.0; n + 1];
    check(batch(&ev, &cols, &mut out), 8);
    check(out[n] == -77.0, 7);
    agree(out[row], ev.evaluate(&[p, q, r]), 1);
}
/// every row is arbitrary
fn all_rows(e: &Expr, n: usize) {
    let ev = match CompiledEvaluator::compile(e, &["x", "y", "z"], None) { Ok(d) => d, Err(_) => { check(false, 9); return; } };
    let cols: Vec<Vec<f64>> = (0..3).map(|_| (0..n).map(|_| real()).collect()).collect();
    let mut out = vec![-77.0; n + 1];
    check(batch(&ev, &cols, &mut out), 8);
    check(out[n] == -77.0, 7);
    for i in 0..n { agree(out[i], ev.evaluate(&[cols[0][i], cols[1][i], cols[2][i]]), 1); }
}
fn rows() -> usize { [0, 3, 4][choice(3)] }
harness! {
    h_c07_fun1 { let e = cshapes::fun1(); let r = rows(); verify(&e, 5, r); }
    h_c07_fun2 { let e = cshapes::fun2(); let r = rows(); verify(&e, 5, r); }
    h_c07_pow { let e = cshapes::pow(); let r = rows(); verify(&e, 5, r); }
    h_c07_sum3 { let e = cshapes::sum3(); let r = [1, 4][choice(2)]; verify(&e, 5, r); }
    h_c07_sumprod { let e = cshapes::sumprod(); let r = [2, 5][choice(2)]; verify(&e, 6, r); }
    h_c07_prod { let e = cshapes::prod(); let r = rows(); verify(&e, 5, r); }
    h_c07_powp { let e = cshapes::powp(); let r = [2, 5][choice(2)]; verify(&e, 6, r); }
    h_c07_expm1 { let e = cshapes::expm1(); let r = rows(); verify(&e, 5, r); }
    h_c07_poly { let e = cshapes::poly(); let r = rows(); verify(&e, 5, r); }
    h_c07_cse { let e = cshapes::cse(); let r = rows(); verify(&e, 5, r); }
    h_c07_rows {
        // every number of rows, all rows arbitrary
        let k = split(18);
        let e = match choice(6) {
            0 => x() - n(2.0) * y(),
            1 => x() * y() + z(),
            2 => (n(coef()) + x() + x().pow(2.0)) * z() - y(),
            3 => (x() - y()) * (x() - y()) + (x() - y()),
            4 => n(coef()),
            _ => z(),
        };
        all_rows(&e, k);
    }
    h_c07_params {
        // parameter order, unused parameters, and malformed columns
        let e = x() - n(2.0) * y() + n(3.0) * z();
        let perm = [["x", "y", "z"], ["z", "x", "y"], ["y", "z", "x"], ["z", "y", "x"], ["y", "x", "z"], ["x", "z", "y"]][split(6)];
        let mut names: Vec<&str> = perm.to_vec();
        let extra = choice(3);
        if extra == 1 { names.insert(0, "w"); } else if extra == 2 { names.push("w"); }
        let Ok(ev) = CompiledEvaluator::compile(&e, &names, None) else { check(false, 9); return };
        let m = [1, 4, 6][choice(3)];
        let cols: Vec<Vec<f64>> = names.iter().map(|_| (0..m).map(|_| real()).collect()).collect();
        let mut out = vec![-77.0; m];
        check(batch(&ev, &cols, &mut out), 8);
        for i in 0..m {
            let v = |s: &str| cols[names.iter().position(|k| *k == s).unwrap()][i];
            check_eq(out[i], v("x") - 2.0 * v("y") + 3.0 * v("z"), 1);
        }
        let mut bad = cols.clone();
        match choice(4) {
            0 => { bad.pop(); check(!batch(&ev, &bad, &mut out), 4) }
            1 => { bad.push(vec![0.0; m]); check(!batch(&ev, &bad, &mut out), 4) }
            2 => { bad[1].push(0.0); check(!batch(&ev, &bad, &mut out), 5) }
            _ => { check(!batch(&ev, &cols, &mut out[1..]), 6) }
        }
    }
}
