//! Enumerated expression shapes with symbolic coefficients.
use super::prim::*;
use symb_anafis::Expr;

pub fn x() -> Expr { Expr::symbol("x") }
pub fn y() -> Expr { Expr::symbol("y") }
pub fn z() -> Expr { Expr::symbol("z") }
pub fn n(v: f64) -> Expr { Expr::number(v) }

pub const F1: &[&str] = &[
    "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "sinh", "cosh", "tanh", "coth", "sech", "csch",
    "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "signum", "floor", "ceil", "round",
    "sinc", "erf", "erfc", "gamma", "digamma", "trigamma", "tetragamma", "lambertw", "elliptic_k", "elliptic_e", "zeta",
];
pub const F2: &[&str] = &["atan2", "log", "beta", "besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite"];

/// fill the lazily built tables (symbols, function registry, rules, thread locals)
pub fn warm() {
    let e = (x() + y()) * z() + Expr::symbol("w");
    let d = symb_anafis::Diff::new().differentiate(&e, &symb_anafis::symb("x"));
    drop(d);
    for f in F1 { let _ = Expr::func(f, x()); }
    let s = symb_anafis::Simplify::new().simplify(&(e / x()));
    drop(s);
}

/// small operands used to build combined shapes; `c` is a symbolic coefficient
pub const PIECES: usize = 16;
pub fn piece(k: usize) -> Expr {
    match k {
        0 => x(),
        1 => y(),
        2 => n(coef()),
        3 => -x(),
        4 => n(coef()) * x(),
        5 => x().pow(2.0),
        6 => n(1.0) / x(),
        7 => x() * y(),
        8 => n(coef()) * x() * y(),
        9 => x() / y(),
        10 => Expr::func("exp", x()),
        11 => Expr::func("sqrt", x()),
        12 => x() + y(),
        13 => n(coef()) - x(),
        14 => -(x() * y()),
        _ => Expr::func("sin", x()),
    }
}
/// e^k pieces raised to a concrete power (every special-cased exponent)
pub const POWERS: &[f64] = &[2.0, 3.0, 4.0, 5.0, 8.0, 16.0, -1.0, -2.0, -3.0, -4.0, 0.5, -0.5, 1.5, -1.5, 1.0 / 3.0, -1.0 / 3.0, 0.0, 1.0, 2.5, 0.25];
