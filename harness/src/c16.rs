//! C16 dual numbers carry the value and the exact derivative.
use super::prim::*;
use super::refm::*;
use num_traits::{Float, One, Signed, Zero};
use symb_anafis::Dual;

type Du = Dual<f64>;
/// an arbitrary real or exactly zero
fn arg() -> f64 { if choice(2) == 0 { real() } else { 0.0 } }
fn same(r: Du, v: f64, d: f64) {
    if !fin(v) || !fin(d) { skip(); }
    reach(1);
    if !fin(r.val) { check(false, 3); skip(); }
    check_eq(r.val, v, 1);
    if !fin(r.eps) { check(false, 4); skip(); }
    check_eq(r.eps, d, 2);
}
fn some(r: Option<Du>, v: f64, d: f64) {
    if !fin(v) || !fin(d) { skip(); }
    match r { Some(r) => same(r, v, d), None => check(false, 5) }
}
fn f<T: Float + symb_anafis::MathScalar>(name: &str, u: Dual<T>) -> Dual<T> {
    match name {
        "sin" => Float::sin(u), "cos" => Float::cos(u), "tan" => Float::tan(u), "asin" => Float::asin(u), "acos" => Float::acos(u), "atan" => Float::atan(u),
        "sinh" => Float::sinh(u), "cosh" => Float::cosh(u), "tanh" => Float::tanh(u), "asinh" => Float::asinh(u), "acosh" => Float::acosh(u), "atanh" => Float::atanh(u),
        "exp" => Float::exp(u), "ln" => Float::ln(u), "log10" => Float::log10(u), "log2" => Float::log2(u), "sqrt" => Float::sqrt(u), "cbrt" => Float::cbrt(u),
        "abs" => Float::abs(u), "floor" => Float::floor(u), "ceil" => Float::ceil(u), "round" => Float::round(u),
        "sinc" => u.sinc(), "erf" => u.erf(), "erfc" => u.erfc(), "signum" => u.sign(),
        "gamma" => u.gamma().unwrap_or(Dual::constant(T::nan())), "digamma" => u.digamma().unwrap_or(Dual::constant(T::nan())), "trigamma" => u.trigamma().unwrap_or(Dual::constant(T::nan())),
        "lambertw" => u.lambert_w().unwrap_or(Dual::constant(T::nan())), "zeta" => u.zeta().unwrap_or(Dual::constant(T::nan())),
        _ => { check(false, 9); u }
    }
}
const NAMES: &[&str] = &["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs",
    "floor", "ceil", "round", "sinc", "erf", "erfc", "signum", "gamma", "digamma", "trigamma", "lambertw", "zeta"];
const ELEM: usize = 19;
/// textbook derivative, undefined at jumps
fn d(name: &str, u: f64) -> f64 {
    match name {
        "floor" | "ceil" => if u == u.floor() { f64::NAN } else { 0.0 },
        "round" => if u + 0.5 == (u + 0.5).floor() { f64::NAN } else { 0.0 },
        "sinc" => if u == 0.0 { 0.0 } else { df1(name, u).unwrap() },
        "lambertw" => if u == 0.0 { 1.0 } else { df1(name, u).unwrap() },
        _ => df1(name, u).unwrap(),
    }
}
harness! {
    h_c16_fun {
        let name = NAMES[split(NAMES.len())];
        note(name);
        let (v, e) = (arg(), real());
        same(f(name, Du::new(v, e)), f1(name, v).unwrap(), d(name, v) * e);
    }
    h_c16_chain {
        // compositions: the inner derivative is carried through
        let (n, m) = (NAMES[split(ELEM)], NAMES[split(NAMES.len())]);
        note(n); note(m);
        let (v, e) = (real(), real());
        let g = f1(m, v).unwrap();
        if !fin(g) { skip(); }
        same(f(n, f(m, Du::new(v, e))), f1(n, g).unwrap(), d(n, g) * d(m, v) * e);
    }
    h_c16_other {
        // functions that have no symbolic counterpart
        let k = split(16);
        let (v, e) = (arg(), real());
        let u = Du::new(v, e);
        match k {
            0 => same(u.exp2(), v.exp2(), v.exp2() * 2.0f64.ln() * e),
            1 => same(u.exp_m1(), v.exp() - 1.0, v.exp() * e),
            2 => same(u.ln_1p(), (1.0 + v).ln(), if 1.0 + v > 0.0 { e / (1.0 + v) } else { f64::NAN }),
            3 => same(u.recip(), 1.0 / v, -e / (v * v)),
            4 => { let (s, c) = u.sin_cos(); if choice(2) == 0 { same(s, v.sin(), v.cos() * e) } else { same(c, v.cos(), -v.sin() * e) } }
            5 => same(u.trunc(), v.trunc(), if v == v.floor() { f64::NAN } else { 0.0 }),
            6 => same(u.fract(), v - v.trunc(), if v == v.floor() { f64::NAN } else { e }),
            7 => same(Float::signum(u), if v == 0.0 { f64::NAN } else if v > 0.0 { 1.0 } else { -1.0 }, 0.0),
            8 => same(Signed::abs(&u), v.abs(), if v == 0.0 { f64::NAN } else if v > 0.0 { e } else { -e }),
            9 => same(-u, -v, -e),
            10 => { let n = choice(6); some(u.polygamma(n as i32), uf(POLYGAMMA, n as f64, v), uf(POLYGAMMA, n as f64 + 1.0, v) * e) }
            11 => { let n = choice(9) as i32 - 4; some(u.bessel_j(n), uf(BJ, n as f64, v), (uf(BJ, n as f64 - 1.0, v) - uf(BJ, n as f64 + 1.0, v)) / 2.0 * e) }
            12 => same(Du::constant(v), v, 0.0),
            13 => { let z = Du::zero() + Du::one() * u; same(z, v, e); }
            14 => { check(u.is_positive() == (v > 0.0) && u.is_negative() == (v < 0.0), 6); check(u.is_zero() == (v == 0.0 && e == 0.0), 7); reach(1); }
            _ => { check(<Du as num_traits::NumCast>::from(v).is_some_and(|c| c.val == v && c.eps == 0.0), 6); reach(1); }
        }
    }
    h_c16_powi {
        let n = choice(17) as i32 - 8;
        let (v, e) = (arg(), real());
        let p = v.powf(n as f64);
        if v == 0.0 && n <= 0 {
            // x^0 is 1 everywhere, negative powers are undefined at 0
            if n == 0 { same(Du::new(v, e).powi(0), 1.0, 0.0); }
            skip();
        }
        same(Du::new(v, e).powi(n), p, if n == 0 { 0.0 } else { n as f64 * v.powf(n as f64 - 1.0) * e });
    }
    h_c16_powf {
        let k = split(6);
        let (a, e, b) = (arg(), real(), real());
        let u = Du::new(a, e);
        match k {
            // constant exponents, negative bases included
            0 => { let n = expo(); same(u.powf(Du::constant(n)), if n == 0.0 { 1.0 } else { a.powf(n) }, if n == 0.0 { 0.0 } else { n * a.powf(n - 1.0) * e }) }
            1 => { let n = expo() / 2.0; if a <= 0.0 { skip(); } same(u.powf(Du::constant(n)), a.powf(n), n * a.powf(n - 1.0) * e) }
            // variable exponents
            2 => same(u.powf(Du::new(b, e)), if a > 0.0 { a.powf(b) } else { f64::NAN }, a.powf(b) * (e * a.ln() + b * e / a)),
            3 => { let g = real(); same(u.powf(Du::new(b, g)), if a > 0.0 { a.powf(b) } else { f64::NAN }, a.powf(b) * (g * a.ln() + b * e / a)) }
            4 => { let c = coef_in(1, 9); same(Du::constant(c).powf(u), c.powf(a), c.powf(a) * c.ln() * e) }
            _ => { let c = coef_in(2, 9); same(u.log(Du::constant(c)), a.ln() / c.ln(), if a > 0.0 { e / (a * c.ln()) } else { f64::NAN }) }
        }
    }
    h_c16_binary {
        let k = split(18);
        let (a, p, b, q) = (arg(), real(), arg(), real());
        let (u, w) = (Du::new(a, p), Du::new(b, q));
        match k {
            0 => same(u + w, a + b, p + q),
            1 => same(u - w, a - b, p - q),
            2 => same(u * w, a * b, a * q + p * b),
            3 => same(u / w, a / b, (p * b - a * q) / (b * b)),
            4 => { let mut t = u; t += w; same(t, a + b, p + q) }
            5 => { let mut t = u; t -= w; same(t, a - b, p - q) }
            6 => { let mut t = u; t *= w; same(t, a * b, a * q + p * b) }
            7 => { let mut t = u; t /= w; same(t, a / b, (p * b - a * q) / (b * b)) }
            8 => { let c = real(); let g = real(); same(u.mul_add(w, Du::new(c, g)), a * b + c, a * q + p * b + g) }
            9 => same(u.atan2(w), a.atan2(b), (b * p - a * q) / (a * a + b * b)),
            10 => same(u.hypot(w), (a * a + b * b).sqrt(), (a * p + b * q) / (a * a + b * b).sqrt()),
            11 => same(Float::max(u, w), if a > b { a } else { b }, if a == b { f64::NAN } else if a > b { p } else { q }),
            12 => same(Float::min(u, w), if a < b { a } else { b }, if a == b { f64::NAN } else if a < b { p } else { q }),
            13 => same(Float::abs_sub(u, w), if a > b { a - b } else { 0.0 }, if a == b { f64::NAN } else if a > b { p - q } else { 0.0 }),
            14 => same(u.log(w), if a > 0.0 && b > 0.0 { a.ln() / b.ln() } else { f64::NAN }, (p / a * b.ln() - a.ln() * q / b) / (b.ln() * b.ln())),
            15 => {
                let g = |t: f64| uf(GAMMA, t, 0.0);
                let ps = |t: f64| uf(POLYGAMMA, 0.0, t);
                let v = g(a) * g(b) / g(a + b);
                some(u.beta(w), v, v * (p * (ps(a) - ps(a + b)) + q * (ps(b) - ps(a + b))))
            }
            16 => same(u * u * w - w / u, a * a * b - b / a, 2.0 * a * p * b + a * a * q - (q * a - b * p) / (a * a)),
            _ => same((u + w) * (u - w) / (u * u + w * w), (a * a - b * b) / (a * a + b * b), (2.0 * a * p - 2.0 * b * q) / (a * a + b * b) - (a * a - b * b) * (2.0 * a * p + 2.0 * b * q) / ((a * a + b * b) * (a * a + b * b))),
        }
    }
    h_c16_nested {
        // dual numbers over dual numbers carry the second derivative
        let k = split(10);
        let v = real();
        let u: Dual<Du> = Dual::new(Du::new(v, 1.0), Du::new(1.0, 0.0));
        let (r, e) = match k {
            0 => (f("sin", u), -v.sin()),
            1 => (f("exp", u), v.exp()),
            2 => (f("ln", u), if v > 0.0 { -1.0 / (v * v) } else { f64::NAN }),
            3 => (u * u * u, 6.0 * v),
            4 => (f("sqrt", u), -0.25 * v.powf(-1.5)),
            5 => (f("tan", u), 2.0 * v.sin() / (v.cos() * v.cos() * v.cos())),
            6 => (f("atan", u), -2.0 * v / ((1.0 + v * v) * (1.0 + v * v))),
            7 => (f("sinh", u), v.sinh()),
            8 => (Dual::<Du>::one() / u, 2.0 / (v * v * v)),
            _ => (u.powi(4), 12.0 * v * v),
        };
        if !fin(e) { skip(); }
        reach(1);
        if !fin(r.eps.eps) { check(false, 3); skip(); }
        check_eq(r.eps.eps, e, 1);
        check_eq(r.eps.val, r.val.eps, 2);
    }
}
