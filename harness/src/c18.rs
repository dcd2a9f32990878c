//! C18 uncertainty propagation.
use super::prim::*;
use super::refm::*;
use super::shapes::*;
use symb_anafis::{CovEntry, CovarianceMatrix, Expr, relative_uncertainty, uncertainty_propagation};

const V: [&str; 3] = ["x", "y", "z"];
const SHAPES: usize = 14;
fn shape(k: usize) -> Expr {
    let coef = || coef_in(-2, 2);
    match k {
        0 => x() + y(),
        1 => n(coef()) * x() + n(coef()) * y(),
        2 => x() * y(),
        3 => x() / y(),
        4 => x().pow(2.0) + y() + z(),
        5 => Expr::func("uu", x()) + y(),
        6 => Expr::func_multi("hh", vec![x(), y()]),
        7 => x(),
        8 => n(3.0),
        9 => x() * y() * z(),
        10 => Expr::func("exp", x()) * y(),
        11 => Expr::func("ln", x()) + y().pow(2.0),
        12 => z() - x() * y(),
        _ => Expr::func("uu", x() * y()) / z(),
    }
}
fn e(name: &str) -> CovEntry { CovEntry::Symbolic(Expr::symbol(name)) }
fn nm(v: f64) -> CovEntry { CovEntry::Num(v) }
fn sg(i: f64) -> f64 { uf(SIGMA, i, 0.0) }
/// covariance matrix of n variables with its values
fn cov(k: usize, m: usize) -> (Option<CovarianceMatrix>, [[f64; 3]; 3]) {
    let mut c = [[0.0; 3]; 3];
    let mut en = vec![vec![nm(0.0); m]; m];
    let mut put = |i: usize, j: usize, q: CovEntry, v: f64| { if i < m && j < m { en[i][j] = q.clone(); en[j][i] = q; c[i][j] = v; c[j][i] = v; } };
    match k {
        0 => { for i in 0..m { c[i][i] = sg(i as f64) * sg(i as f64); } return (None, c); }
        1 => { for i in 0..m { c[i][i] = sg(i as f64) * sg(i as f64); } return (Some(CovarianceMatrix::diagonal_symbolic(&V[..m])), c); }
        2 => { let d: Vec<f64> = (0..m).map(|_| coef_in(0, 2)).collect(); for i in 0..m { c[i][i] = d[i]; } return (Some(CovarianceMatrix::diagonal(d.into_iter().map(nm).collect())), c); }
        3 => { let q = coef_in(-2, 2); put(0, 0, nm(2.0), 2.0); put(1, 1, nm(3.0), 3.0); put(0, 1, nm(q), q); }
        4 => { put(0, 0, e("cxx"), sg(4.0)); put(0, 1, e("cxy"), sg(3.0)); put(1, 1, nm(1.0), 1.0); }
        5 => { let q = coef_in(-1, 1); put(0, 1, nm(q), q); put(2, 2, nm(1.0), 1.0); put(1, 2, e("cxy"), sg(3.0)); put(0, 0, CovEntry::Symbolic(n(0.0)), 0.0); }
        6 => { put(0, 1, CovEntry::Symbolic(Expr::symbol("sigma_x") * Expr::symbol("sigma_y")), sg(0.0) * sg(1.0)); put(0, 2, nm(-1.0), -1.0); }
        _ => { for i in 0..m { for j in i..m { let v = ((i * 3 + j) as f64) + 1.0; put(i, j, nm(v), v); } } }
    }
    (CovarianceMatrix::new(en).ok(), c)
}
fn variance(f: &Expr, env: &Env, c: &[[f64; 3]; 3], m: usize) -> f64 {
    let g: Vec<D> = (0..m).map(|i| dval(f, env, V[i])).collect();
    if g.iter().any(|t| !fin(t.v) || !fin(t.d)) { skip(); }
    let mut s = 0.0;
    for i in 0..m { for j in 0..m { s += g[i].d * g[j].d * c[i][j]; } }
    s
}
harness! {
    h_c18_sigma {
        let (k, cv) = (split(SHAPES), split(8));
        let f = shape(k);
        let m = choice(4);
        let (cm, c) = cov(cv, m);
        if cv > 1 && cm.is_none() { check(false, 5); }
        let s = match uncertainty_propagation(&f, &V[..m], cm.as_ref()) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
        let env = Env::any();
        let r = variance(&f, &env, &c, m);
        let v = val(&s, &env);
        reach(1);
        if !fin(v) { skip(); }
        check_eq(v * v, r, 1);
        check(v >= 0.0, 3);
    }
    h_c18_defined {
        // where the variance is positive the result is a number
        let f = shape(split(SHAPES));
        let s = match uncertainty_propagation(&f, &V, None) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
        let mut c = [[0.0; 3]; 3];
        for i in 0..3 { c[i][i] = sg(i as f64) * sg(i as f64); }
        let env = Env::any();
        if env.x == 0.0 || env.y == 0.0 || env.z == 0.0 { skip(); }
        let r = variance(&f, &env, &c, 3);
        if r <= 0.0 { skip(); }
        reach(1);
        check(fin(val(&s, &env)), 1);
    }
    h_c18_relative {
        let (k, cv) = (split(SHAPES), split(8));
        let f = shape(k);
        let m = 1 + choice(3);
        let (cm, c) = cov(cv, m);
        let s = match relative_uncertainty(&f, &V[..m], cm.as_ref()) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
        let env = Env::any();
        let r = variance(&f, &env, &c, m);
        let (v, fv) = (val(&s, &env), val(&f, &env));
        reach(1);
        if !fin(v) || fv == 0.0 { skip(); }
        check_eq(v * v * fv * fv, r, 1);
        check(v >= 0.0, 3);
    }
    h_c18_subset {
        // other variables are exact; the order of the variables goes with the rows of the matrix
        let f = shape(split(SHAPES));
        let env = Env::any();
        let (g, h) = (dval(&f, &env, "z"), dval(&f, &env, "x"));
        if !fin(g.v) || !fin(g.d) || !fin(h.d) { skip(); }
        let q = coef_in(-2, 2);
        let cm = CovarianceMatrix::new(vec![vec![nm(2.0), nm(q)], vec![nm(q), e("cxx")]]).unwrap_or_default();
        let s = match uncertainty_propagation(&f, &["z", "x"], Some(&cm)) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
        let v = val(&s, &env);
        reach(1);
        if !fin(v) { skip(); }
        check_eq(v * v, 2.0 * g.d * g.d + 2.0 * q * g.d * h.d + sg(4.0) * h.d * h.d, 1);
    }
    h_c18_tiny {
        // small variances are not lost
        let t = [1e-10, 1e-18, 4e-26][split(3)];
        let a = coef_in(1, 2);
        let f = n(a) * x() + y();
        let s = uncertainty_propagation(&f, &["x", "y"], Some(&CovarianceMatrix::diagonal(vec![nm(t), nm(3.0 * t)])));
        let v = match s { Ok(s) => val(&s, &Env { x: 1.0, y: 2.0, z: 0.0, w: 0.0 }), Err(_) => { check(false, 2); return; } };
        reach(1);
        check_eq(v * v / t, a * a + 3.0, 1);
    }
    h_c18_malformed {
        let (a, b) = (coef(), coef());
        let f = x() * y();
        match split(7) {
            0 => check(CovarianceMatrix::new(vec![vec![nm(1.0), nm(a)], vec![nm(b), nm(2.0)]]).is_ok() == (a == b), 1),
            1 => check(CovarianceMatrix::new(vec![vec![nm(1.0), nm(a)], vec![nm(a)]]).is_err(), 2),
            2 => check(CovarianceMatrix::new(vec![vec![nm(1.0)], vec![nm(a)]]).is_err(), 3),
            3 => { let r = CovarianceMatrix::new(vec![vec![nm(1.0), nm(2.0), nm(a)], vec![nm(2.0), nm(1.0), nm(b)], vec![nm(a), nm(b), nm(3.0)]]); check(r.is_ok(), 4); check(r.is_ok_and(|m| m.dim() == 3 && matches!(m.get(2, 1), Some(CovEntry::Num(v)) if *v == b) && m.get(3, 0).is_none()), 5) }
            4 => { let m = CovarianceMatrix::diagonal(vec![nm(1.0)]); check(uncertainty_propagation(&f, &["x", "y"], Some(&m)).is_err(), 6) }
            5 => { let m = CovarianceMatrix::diagonal(vec![nm(1.0), nm(a), nm(b)]); check(uncertainty_propagation(&f, &["x", "y"], Some(&m)).is_err(), 7); check(relative_uncertainty(&f, &["x", "y"], Some(&m)).is_err(), 8) }
            _ => check(CovarianceMatrix::new(vec![vec![nm(1.0), nm(2.0), nm(a)], vec![nm(2.0), nm(1.0), nm(0.0)], vec![nm(b), nm(0.0), nm(3.0)]]).is_ok() == (a == b), 9),
        }
        reach(1);
    }
}
