//! Expression families that reach every instruction of the evaluator.
use super::prim::*;
use super::shapes::*;
use symb_anafis::Expr;

fn arg(k: usize) -> Expr {
    match k {
        0 => x(),
        1 => -x(),
        2 => n(coef()) * x() + n(coef()),
        3 => x().pow(2.0),
        4 => -(x().pow(2.0)),
        5 => n(1.0) + y(),
        6 => -x() / y(),
        7 => n(1.0) / x(),
        8 => x() * y(),
        _ => -(x() * y() * z()),
    }
}
pub fn fun1() -> Expr {
    let f = F1[split(F1.len())];
    let k = choice(10);
    note(f);
    Expr::func(f, arg(k))
}
pub fn fun2() -> Expr {
    let f = F2[split(F2.len())];
    note(f);
    let a = match f { "atan2" | "log" | "beta" => match choice(3) { 0 => x(), 1 => n(coef()), _ => x() * y() }, "hermite" => n(choice(6) as f64), "polygamma" => n(choice(5) as f64), _ => n(choice(4) as f64) };
    Expr::func_multi(f, vec![a, match choice(3) { 0 => y(), 1 => x() + y(), _ => n(2.0) * x() }])
}
pub fn pow() -> Expr {
    let p = POWERS[split(POWERS.len())];
    let b = match choice(5) { 0 => x(), 1 => -x(), 2 => x() + n(coef()), 3 => x() * y(), _ => Expr::func("sin", x()) };
    let e = match choice(4) { 0 => b.pow(p), 1 => n(1.0) / b.pow(p), 2 => b.clone().pow(p) * b, _ => n(coef()) * b.pow(p) + y() };
    e
}
pub fn sum3() -> Expr {
    let a = piece(split(PIECES));
    let b = piece(choice(PIECES));
    let c = piece(choice(PIECES));
    Expr::sum(vec![a, b, c])
}
pub fn sumprod() -> Expr {
    // fused multiply-add forms: up to three signed products and plain terms
    let k = split(6) + 1;
    let term = |i: usize| -> Expr {
        let (a, b, c) = match i { 0 => (x(), y(), z()), 1 => (z(), Expr::func("sin", x()), y()), 2 => (y(), y().pow(1.5), x()), _ => (Expr::func("exp", z()), x(), z()) };
        match choice(6) { 0 => a * b, 1 => -(a * b), 2 => n(coef()) * a * b * c, 3 => -a, 4 => a * b * c, _ => -(a * b * c) }
    };
    let mut t: Vec<Expr> = (0..1 + k % 3).map(term).collect();
    if k > 3 { t.push(n(coef())); }
    Expr::sum(t)
}
pub fn prod() -> Expr {
    let a = piece(split(PIECES));
    let b = piece(choice(PIECES));
    let e = match choice(5) { 0 => a * b, 1 => a / b, 2 => a * b - z(), 3 => z() - a * b, _ => a / b + z() };
    e
}
pub fn powp() -> Expr {
    let a = piece(split(PIECES));
    let b = match choice(6) { 0 => x(), 1 => n(expo()), 2 => n(expo()) * y(), 3 => y(), 4 => -y(), _ => n(expo()) / n(2.0) };
    a.pow(b)
}
pub fn expm1() -> Expr {
    let a = match split(4) { 0 => x(), 1 => x() * y(), 2 => -x(), _ => n(coef()) * x() };
    let ex = || Expr::func("exp", a.clone());
    let e = match split(10) {
        0 => ex() - n(1.0),
        1 => n(1.0) / (ex() - n(1.0)),
        2 => ex() - n(1.0) + y(),
        3 => ex() + Expr::func("exp", y()) - n(1.0),
        4 => y() / (ex() - n(1.0)),
        5 => n(coef()) / ex(),
        6 => Expr::symbol("e").pow(a.clone()) - n(1.0),
        7 => n(3.0) / Expr::symbol("e").pow(a.clone()),
        8 => (ex() - n(1.0)) * (ex() - n(1.0)) + ex(),
        _ => n(1.0) / (ex() + n(coef())),
    };
    e
}
pub fn poly() -> Expr {
    let base = match split(4) { 0 => x(), 1 => Expr::func("sin", x()), 2 => x() + y(), _ => Expr::func("sqrt", x()) };
    let (a, b, c, d) = (coef(), coef(), coef(), coef());
    let e = match choice(4) {
        0 => n(a) + n(b) * base.clone() + n(c) * base.clone().pow(2.0) + n(d) * base.pow(3.0),
        1 => n(a) + n(b) * base.clone().pow(5.0) + n(c) * base.pow(2.0),
        2 => (n(a) + n(b) * base.clone() + n(c) * base.clone().pow(2.0)) * y() + base,
        _ => n(1.0) / (n(a) + n(b) * base.clone().pow(2.0) + base),
    };
    e
}
pub fn cse() -> Expr {
    // shared subexpressions: cached slots, reuse, dead stores
    let s = match split(7) { 0 => Expr::func("sin", x()), 1 => x() * y(), 2 => x() / y(), 3 => x().pow(2.5), 4 => Expr::func("exp", x() + n(coef())), 5 => x() + y(), _ => x().pow(2.0) };
    let t = match choice(4) { 0 => Expr::func("cos", y()), 1 => y() / z(), 2 => y().pow(2.0), _ => s.clone() * y() };
    let e = match choice(8) {
        0 => s.clone() * (s.clone() + t),
        1 => s.clone() / (n(1.0) + s.clone()) + t.clone() * s,
        2 => (s.clone() + t.clone()) / (s - t),
        3 => s.clone().pow(2.0) + s.clone().pow(3.0) + t.clone() * s,
        4 => Expr::func("exp", s.clone()) + Expr::func("exp", -s.clone()) + t.clone() + Expr::func("ln", t),
        5 => (s.clone() - t.clone()) * (s.clone() - t.clone()) + Expr::func("sqrt", s - t),
        6 => { let u = Expr::func("cos", s.clone() * t.clone()); u.clone() / (s.clone() + u.clone()) - t / (s - u) }
        _ => s.clone() * t.clone() * z() - s * t,
    };
    e
}
