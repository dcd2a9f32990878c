//! Shapes that reach the simplification rules (and near misses of them): operators and functions are
//! enumerated, coefficients and variables are symbolic.
use super::prim::*;
use super::shapes::*;
use symb_anafis::Expr;

/// small coefficients: the gcd and factoring rules make the engine enumerate them
fn sc() -> f64 { if wide() { coef_in(-6, 6) } else { coef_in(-2, 2) } }
static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn wide() -> bool { WIDE.load(std::sync::atomic::Ordering::Relaxed) }
/// larger coefficients (thorough tier)
pub fn widen() { WIDE.store(true, std::sync::atomic::Ordering::Relaxed) }
fn pq() -> (usize, usize) { if wide() { (1 + choice(3), 1 + choice(2)) } else { [(1, 1), (2, 2), (3, 1), (2, 1)][choice(4)] } }
fn one() -> f64 { coef_in(-1, 1) }
fn nz() -> f64 { let c = sc(); assume(c != 0.0); c }
fn f(name: &str, u: Expr) -> Expr { Expr::func(name, u) }
fn pi() -> Expr { Expr::symbol("pi") }
fn e() -> Expr { Expr::symbol("e") }
const TRIG: &[&str] = &["sin", "cos", "tan", "cot", "sec", "csc"];
const HYP: &[&str] = &["sinh", "cosh", "tanh", "coth", "sech", "csch"];
pub const INV: &[&str] = &[
    "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "sinh", "cosh", "tanh", "coth", "sech", "csch", "asinh", "acosh", "atanh",
    "acoth", "asech", "acsch", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "signum",
];
pub const EXPS: &[f64] = &[2.0, 3.0, -1.0, -2.0, 4.0, 0.5, 1.0 / 3.0, 1.5, -0.5, 2.0 / 3.0, 0.25, 6.0];

pub fn fun1() -> Expr {
    let g = F1[split(F1.len())];
    note(g);
    // functions without an exact numeric model: the argument stays non-constant
    let special = F1.iter().position(|h| *h == g).unwrap() >= 36;
    let k = || if special { nz() } else { sc() };
    let u = match choice(10) {
        0 => x(),
        1 => -x(),
        2 => if special { n(2.0) * x() } else { n(sc()) },
        3 => n(k()) * x(),
        4 => x().pow(2.0),
        5 => x() - y(),
        6 => -x() / y(),
        7 => n(k()) * x() + n(k()) * y(),
        8 => f("abs", x()),
        _ => n(k()) / x(),
    };
    f(g, u)
}
/// f(g(x)) for elementary f and g
pub fn compose() -> (Expr, Expr, &'static str, &'static str) {
    let g = INV[split(INV.len())];
    let h = INV[choice(INV.len())];
    note(g);
    note(h);
    let u = match choice(2) { 0 => x(), _ => n(sc()) * x() };
    (f(g, f(h, u.clone())), u, g, h)
}
/// exact values, periodicity, reflection, cofunctions
pub fn trig_pi() -> Expr {
    let t = TRIG[split(6)];
    note(t);
    let k = choice(27) as f64 - 13.0;
    let m = [1.0, 2.0, 3.0, 4.0, 6.0][choice(5)];
    let c = match choice(2) { 0 => n(k) * pi() / n(m), _ => n(k / m) * pi() };
    f(t, match choice(4) { 0 => c, 1 => c + x(), 2 => c - x(), _ => x() - c })
}
/// numeric multiples of pi given as plain numbers
pub fn trig_num() -> Expr {
    let t = TRIG[split(6)];
    note(t);
    let k = choice(17) as f64 - 8.0;
    let m = [1.0, 2.0, 4.0, 6.0][choice(4)];
    let c = k * std::f64::consts::PI / m;
    f(t, match choice(3) { 0 => n(c), 1 => n(c) + x(), _ => n(c) - x() })
}
fn targ(k: usize) -> Expr { match k { 0 => x(), 1 => n(2.0) * x(), 2 => y(), _ => -x() } }
pub fn trig_sum() -> Expr {
    let (i, j) = (split(6), choice(6));
    note(TRIG[i]);
    note(TRIG[j]);
    let (p, q) = pq();
    let a = f(TRIG[i], x()).pow(n(p as f64));
    let b = f(TRIG[j], targ(choice(2))).pow(n(q as f64));
    match choice(3) { 0 => n(sc()) * a + n(sc()) * b, 1 => n(sc()) - n(sc()) * a, _ => n(one()) * a + n(one()) * b + n(sc()) }
}
pub fn trig_prod() -> Expr {
    let (i, j) = (split(6), choice(6));
    note(TRIG[i]);
    note(TRIG[j]);
    let (p, q) = pq();
    let a = f(TRIG[i], targ(choice(2))).pow(n(p as f64));
    let b = f(TRIG[j], targ(choice(if wide() { 4 } else { 3 }))).pow(n(q as f64));
    match choice(4) { 0 => n(sc()) * a * b, 1 => a / b, 2 => n(sc()) / (a * b), _ => a * b * y() }
}
/// angle sums, double and triple angles, with arbitrary signs and coefficients
pub fn trig_angle() -> Expr {
    let u = match choice(3) { 0 => x(), 1 => n(2.0) * x(), _ => x() * z() };
    let v = match choice(3) { 0 => y(), 1 => x(), _ => n(3.0) * y() };
    let s = |w: &Expr| f("sin", w.clone());
    let c = |w: &Expr| f("cos", w.clone());
    match split(12) {
        0 => s(&u) * c(&v) + n(sc()) * c(&u) * s(&v),
        1 => c(&u) * c(&v) + n(sc()) * s(&u) * s(&v),
        2 => s(&(u.clone() + v.clone())) - s(&u) * c(&v),
        3 => s(&(u.clone() - v.clone())),
        4 => c(&(u.clone() + v.clone())) + c(&(u - v)),
        5 => n(sc()) * s(&u).pow(3.0) + n(sc()) * s(&u),
        6 => n(sc()) * c(&u).pow(3.0) + n(sc()) * c(&u),
        7 => n(sc()) * c(&u).pow(2.0) + n(sc()) * s(&u).pow(2.0) + n(sc()),
        8 => n(sc()) * s(&u) * c(&u) + s(&v) * c(&u),
        9 => (s(&u) + c(&u)) * (c(&u) - s(&u)),
        10 => s(&u).pow(2.0) * c(&u) + c(&u).pow(3.0),
        _ => n(sc()) * f("tan", u.clone()).pow(2.0) + n(sc()) * f("sec", u).pow(2.0) + n(sc()),
    }
}
pub fn hyp_sum() -> Expr {
    let (i, j) = (split(6), choice(6));
    note(HYP[i]);
    note(HYP[j]);
    let (p, q) = pq();
    let a = f(HYP[i], x()).pow(n(p as f64));
    let b = f(HYP[j], if wide() { targ(choice(2)) } else { x() }).pow(n(q as f64));
    match choice(5) { 0 => n(sc()) * a + n(sc()) * b, 1 => n(sc()) - n(sc()) * a, 2 => n(sc()) * a * b, 3 => a / b, _ => n(sc()) / (a * b) }
}
pub fn hyp_exp() -> Expr {
    let u = match choice(3) { 0 => x(), 1 => n(sc()) * x(), _ => x() * y() };
    let k = choice(2);
    let ex = |w: Expr| if k == 0 { f("exp", w) } else { e().pow(w) };
    let (p, m) = (ex(u.clone()), ex(-u.clone()));
    match split(14) {
        0 => (n(sc()) * p + n(sc()) * m) / n(nz()),
        1 => (p.clone() - m.clone()) / (p + m),
        2 => (p.clone() + m.clone()) / (p - m),
        3 => n(sc()) / (p + m),
        4 => n(sc()) / (p - m),
        5 => (p.clone() - n(1.0) / p.clone()) / n(2.0) + m,
        6 => (ex(n(2.0) * u.clone()) - n(1.0)) / (ex(n(2.0) * u) + n(1.0)),
        7 => (n(1.0) - ex(n(2.0) * u.clone())) / (ex(n(2.0) * u) + n(1.0)),
        8 => n(sc()) * f("sinh", u.clone()) + n(sc()) * f("sinh", u).pow(3.0),
        9 => n(sc()) * f("cosh", u.clone()).pow(3.0) + n(sc()) * f("cosh", u),
        10 => n(sc()) * f("cosh", u.clone()).pow(2.0) + n(sc()) * f("sinh", u).pow(2.0) + n(sc()),
        11 => n(sc()) * f("tanh", u.clone()).pow(2.0) + n(sc()) * f("sech", u).pow(2.0) + n(sc()),
        12 => n(sc()) * f("coth", u.clone()).pow(2.0) + n(sc()) * f("csch", u).pow(2.0) + n(sc()),
        _ => (m.clone() - p.clone()) / n(2.0) + (p * n(0.5) + m * n(0.5)),
    }
}
pub fn powers() -> (Expr, usize) {
    let a = EXPS[split(EXPS.len())];
    let b = EXPS[choice(EXPS.len())];
    let k = choice(20);
    note(&format!("pow{k}({a},{b})"));
    (match k {
        0 => x().pow(a).pow(b),
        1 => x().pow(a) * x().pow(b),
        2 => x().pow(a) / x().pow(b),
        3 => (x().pow(a) * y().pow(b)).pow(0.5),
        4 => (x() / y()).pow(a) * y().pow(b),
        5 => x().pow(a) * y().pow(a) + x().pow(b),
        6 => x().pow(a) / y().pow(a) - y().pow(b),
        7 => (n(sc()) * x()).pow(a) * x().pow(b),
        8 => f("sqrt", x().pow(a)) * x().pow(b),
        9 => f("cbrt", x().pow(a)) / x().pow(b),
        10 => f("abs", x()).pow(a) * f("abs", x().pow(b)),
        11 => f("sqrt", x()).pow(a) / f("sqrt", y()).pow(b),
        12 => f("cbrt", x()).pow(a) * f("cbrt", y()).pow(b),
        13 => (-x()).pow(a) * x().pow(b),
        14 => (x() + y()).pow(a) / (x() + y()).pow(b),
        15 => (x() - y()).pow(a) * (y() - x()).pow(b),
        16 => (x().pow(2.0)).pow(a) + (x() * y()).pow(b),
        17 => n(1.0) / x().pow(a) + n(sc()) / x().pow(b),
        18 => f("exp", x()).pow(a) * f("exp", y()).pow(b),
        _ => (n(sc()) * x().pow(a) * y()).pow(b),
    }, k)
}
pub fn pow_sym() -> Expr {
    // symbolic exponents
    match split(10) {
        0 => x().pow(y()) * x().pow(z()),
        1 => x().pow(y()) / x().pow(z()),
        2 => x().pow(y()).pow(z()),
        3 => x().pow(z()) * y().pow(z()),
        4 => x().pow(z()) / y().pow(z()),
        5 => (x() * y()).pow(z()),
        6 => (x() / y()).pow(z()),
        7 => x().pow(n(expo())) * x().pow(n(expo())),
        8 => x().pow(n(expo())).pow(n(expo())),
        _ => x().pow(y() + n(expo())) / x(),
    }
}
pub fn explog() -> Expr {
    let k = split(26);
    let b = EXPS[choice(6)];
    match k {
        0 => f("exp", f("ln", x())) + n(sc()),
        1 => f("exp", n(coef_in(-6, 6)) * f("ln", x())),
        2 => e().pow(f("ln", x())),
        3 => e().pow(n(coef_in(-6, 6)) * f("ln", x())),
        4 => f("exp", f("ln", x()) * y()),
        5 => f("ln", f("exp", x())) + f("ln", e().pow(y())),
        6 => f("ln", x().pow(b)),
        7 => f("log10", x().pow(b)),
        8 => f("log2", x().pow(b)),
        9 => Expr::func_multi("log", vec![n(coef_in(2, 9)), x().pow(b)]),
        10 => f("ln", x()) + f("ln", y()),
        11 => f("ln", x()) - f("ln", y()),
        12 => n(sc()) * f("ln", x()) + f("ln", y()),
        13 => f("ln", x()) + f("ln", y()) + f("ln", z()) - f("ln", x() + y()),
        14 => f("exp", x()) * f("exp", y()),
        15 => f("exp", x()) / f("exp", y()),
        16 => f("exp", x()) * f("exp", n(sc()) * x()) * y(),
        17 => e().pow(x()) * e().pow(y()) / e().pow(z()),
        18 => f("ln", f("sqrt", x())) + f("ln", f("cbrt", x())),
        19 => f("ln", x() / y()) + f("ln", x() * y()),
        20 => f("ln", f("abs", x()).pow(b)) + f("ln", x().pow(b)),
        21 => f("log10", n([1.0, 10.0, 100.0, 1000.0, 0.1][choice(5)])) + f("log2", n([1.0, 2.0, 4.0, 8.0, 0.5][choice(5)])) * x(),
        22 => Expr::func_multi("log", vec![n([2.0, 3.0, 10.0, 0.5][choice(4)]), n([1.0, 2.0, 9.0, 100.0, 0.25][choice(5)])]) + f("ln", n([1.0, std::f64::consts::E, 2.0][choice(3)])),
        23 => f("ln", e()) * x() + f("ln", e().pow(b)),
        24 => f("exp", n(0.0) * x() + y()) + f("exp", n(0.0)) * x(),
        _ => f("log10", x()) + f("log10", y()) + f("log2", x()) - f("log2", y()),
    }
}
pub fn fractions() -> Expr {
    let (a, b, c, d) = (sc(), sc(), sc(), nz());
    match split(28) {
        0 => n(a) / n(d) + n(b) * x(),
        1 => n(a) * x() / n(d),
        2 => (n(a) * x() + n(b) * y()) / n(d),
        3 => n(a) / x() + n(b) / y(),
        4 => x() / (y() / z()) + n(a),
        5 => (x() / y()) / (z() / x()) * n(a),
        6 => (x() / y()) / z() + n(a) / (x() / y()),
        7 => n(a) / (n(b) / x()),
        8 => (n(a) * x() + n(b)) / (n(c) * x() + n(d)),
        9 => (n(a) * x() * y()) / (n(d) * x()),
        10 => (x() * y() + x() * z()) / x() * n(a),
        11 => (x().pow(2.0) - n(b) * y().pow(2.0)) / (x() - y()),
        12 => (x().pow(2.0) + n(a) * x() + n(b)) / (x() + n(c)),
        13 => n(a) * x() / y() + n(b) * z() / y(),
        14 => n(a) / (x() * y()) - n(b) / (y() * z()),
        15 => x() / n(d) + y() / n(nz()),
        16 => n(1.0) / (n(1.0) / x() + n(1.0) / y()) * n(a),
        17 => -x() / (-y()) + n(a) * (-x()) / y(),
        18 => (n(a) - x()) / (x() - n(b)),
        19 => f("sin", x()) / x() * n(a) * x() / y(),
        20 => (x() + n(a)).pow(2.0) / (x() + n(b)),
        21 => (x() + n(a)) / (x() + n(b)).pow(3.0),
        22 => n(a) * x() / (n(b) * y() + n(c) * z()),
        23 => (f("sin", x()) * y() + f("sin", x())) / f("sin", x()) + n(a),
        24 => f("sqrt", x()) / x() + n(a) * x() / f("sqrt", x()),
        25 => (x() - y()) / (y() - x()) * n(a),
        26 => n(a) / n(d) / x() + n(b) / n(c),
        _ => (x().pow(3.0) - n(a)) / (x() - n(b)),
    }
}
pub fn factoring() -> Expr {
    let (a, b, c, d) = (sc(), sc(), sc(), sc());
    let s = || f("sin", x());
    match split(24) {
        0 => n(a) * x().pow(2.0) + n(b) * x() + n(c),
        1 => n(a) * x().pow(2.0) + n(b) * x() * y() + n(c) * y().pow(2.0),
        2 => n(a) * x().pow(2.0) - n(b) * y().pow(2.0),
        3 => n(a) * x().pow(3.0) + n(b) * x().pow(2.0) + n(c) * x() + n(d),
        4 => n(a) * x().pow(4.0) - n(b),
        5 => n(a) * s().pow(2.0) + n(b) * s() + n(c),
        6 => n(a) * x() * y() + n(b) * x() * z(),
        7 => n(a) * s() * y() + n(b) * s() * z(),
        8 => n(a) * f("exp", x()) * y() + n(b) * f("exp", x()),
        9 => n(a) * x() + n(b) * x() + n(c) * x().pow(2.0) + n(d) * x().pow(2.0),
        10 => n(a) * s() + n(b) * s(),
        11 => n(a) * x() * s() + n(b) * s() * x() + n(c),
        12 => n(a) * (x() + y()) + n(b) * (x() + y()).pow(2.0),
        13 => (x() + n(a)) * (x() + n(b)),
        14 => (x() + n(a)).pow(2.0) - (x() + n(b)).pow(2.0),
        15 => n(a) * x().pow(2.0) * y() + n(b) * x() * y().pow(2.0),
        16 => x().pow(2.0) * s() - n(a) * s(),
        17 => n(a) * f("sqrt", x()) + n(b) * f("sqrt", x()) * y(),
        18 => n(a) * x().pow(-1.0) + n(b) * x().pow(-2.0),
        19 => n(a) * x().pow(3.0) + n(b) * y().pow(3.0) + n(c) * x().pow(2.0) * y() + n(d) * x() * y().pow(2.0),
        20 => s().pow(2.0) - n(a) * f("cos", y()).pow(2.0),
        21 => n(a) * (x() - y()) + n(b) * (y() - x()),
        22 => (n(a) * x() + n(b)) * n(c) + n(d) * x(),
        _ => n(a) * x() * s().pow(2.0) + n(b) * x() * f("cos", x()).pow(2.0),
    }
}
pub fn abs_roots() -> Expr {
    let c = sc();
    let p = EXPS[choice(EXPS.len())];
    let ab = |u: Expr| f("abs", u);
    let sq = |u: Expr| f("sqrt", u);
    let sg = |u: Expr| f("signum", u);
    match split(33) {
        0 => ab(n(c) * x()),
        1 => ab(-(x() * y())),
        2 => ab(ab(x() * n(c))),
        3 => ab(x().pow(p)),
        4 => ab(x()).pow(p),
        5 => sg(ab(x())) + n(c),
        6 => sg(sg(x() * n(c))),
        7 => ab(x()) * sg(x()) * n(c),
        8 => ab(x()) * ab(y()) + n(c),
        9 => x() / ab(x()) * n(c),
        10 => sq(x().pow(2.0)) * n(c),
        11 => sq(x().pow(p) * y()),
        12 => sq(n(c) * x()),
        13 => sq(n(4.0) * x().pow(p)) + n(c),
        14 => sq(x()) * sq(y()) * n(c),
        15 => sq(x()) / sq(y()) * n(c),
        16 => sq(x()) * sq(x()),
        17 => sq(x().pow(p)),
        18 => f("cbrt", x().pow(p)),
        19 => sq(x() * y()) / sq(x()),
        20 => sq(x().pow(p) * y().pow([2.0, 4.0, 6.0, -2.0][choice(4)])),
        21 => sq(sq(x())) + f("cbrt", f("cbrt", x())),
        22 => ab(x() - y()) - ab(y() - x()) * n(c),
        23 => sq((x() - y()).pow(2.0)) + n(c),
        24 => sg(n(c)) * ab(n(sc())) + sq(n([0.0, 1.0, 2.0, 4.0, 8.0, 9.0][choice(6)])) * x(),
        25 => f("cbrt", n(c)) * f("cbrt", x().pow(3.0)),
        26 => sg(-x()) * x(),
        27 => (x().pow(2.0) + n(c)).pow(0.5).pow(2.0),
        28 => sq(x().pow(2.0) + n(2.0) * x() * y() + y().pow(2.0)),
        29 => f("cbrt", x().pow(p) * y()) + f("cbrt", n(8.0) * x().pow(p)),
        30 => sq(n(c) * x().pow(p) * y() * z()),
        31 => ab(x() / y()) * ab(z()) + sq(x().pow(p) / y().pow(2.0)),
        _ => ab(x()).pow(2.0) - x().pow(2.0) + n(c),
    }
}
pub fn pair() -> Expr {
    let a = rpiece(split(PIECES));
    let b = rpiece(choice(PIECES));
    match split(5) { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a / b - z() }
}
/// sums of three operands
pub fn triple() -> Expr {
    let a = rpiece(split(PIECES));
    let b = rpiece(choice(PIECES));
    let c = rpiece(choice(PIECES));
    match choice(3) { 0 => a * b + c, 1 => a / b + c, _ => (a + b) * c }
}
fn rpiece(k: usize) -> Expr {
    match k {
        2 => n(sc()),
        4 => n(sc()) * x(),
        8 => n(sc()) * x() * y(),
        13 => n(sc()) - x(),
        _ => piece(k),
    }
}
