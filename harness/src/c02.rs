//! C02 simplification preserves the value of an expression.
use super::prim::*;
use super::refm::*;
use super::rules;
use symb_anafis::visitor::ExprView;
use symb_anafis::{Expr, Simplify};

/// every symbol of `s` occurs in `e` (or is a named constant)
fn occurs(name: &str, e: &Expr) -> bool {
    match e.view() {
        ExprView::Number(_) => false,
        ExprView::Symbol(t) => t == name,
        ExprView::Function { args, .. } => args.iter().any(|a| occurs(name, a)),
        ExprView::Sum(v) | ExprView::Product(v) => v.iter().any(|a| occurs(name, a)),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => occurs(name, &a) || occurs(name, &b),
        ExprView::Derivative { inner, .. } => occurs(name, inner),
    }
}
pub fn no_new(s: &Expr, e: &Expr) -> bool {
    match s.view() {
        ExprView::Number(_) => true,
        ExprView::Symbol(t) => t == "pi" || t == "e" || occurs(&t, e),
        ExprView::Function { args, .. } => args.iter().all(|a| no_new(a, e)),
        ExprView::Sum(v) | ExprView::Product(v) => v.iter().all(|a| no_new(a, e)),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => no_new(&a, e) && no_new(&b, e),
        ExprView::Derivative { inner, .. } => no_new(inner, e),
    }
}
fn verify(e: &Expr) { verify_if(e, |_| true) }
fn verify_if(e: &Expr, domain: impl Fn(&Env) -> bool) {
    let s = match Simplify::new().simplify(e) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
    check(no_new(&s, e), 4);
    let env = Env::any();
    assume(domain(&env));
    let r = val(e, &env);
    if !fin(r) { skip(); }
    let v = val(&s, &env);
    if !fin(v) { skip(); }
    reach(1);
    check_eq(v, r, 1);
}
/// the documented principal ranges for f^-1(f(u))
fn compose() {
    let (e, u, g, h) = rules::compose();
    let half = std::f64::consts::FRAC_PI_2;
    verify_if(&e, |env| {
        let v = val(&u, env);
        match (g, h) {
            ("asin", "sin") | ("atan", "tan") => -half < v && v < half,
            ("acos", "cos") => env.x > 0.0 && 0.0 < v && v < 2.0 * half,
            _ => true,
        }
    });
}
/// positive operands where the rules marked as altering the domain combine roots
fn powers() {
    let (e, k) = rules::powers();
    verify_if(&e, |env| !matches!(k, 4 | 7 | 13) || (env.x > 0.0 && env.y > 0.0));
}
harness! {
    h_c02_fun1 { verify(&rules::fun1()); }
    h_c02_compose { compose(); }
    h_c02_trig_pi { verify(&rules::trig_pi()); }
    h_c02_trig_num { verify(&rules::trig_num()); }
    h_c02_trig_sum { verify(&rules::trig_sum()); }
    h_c02_trig_prod { verify(&rules::trig_prod()); }
    h_c02_trig_angle { verify(&rules::trig_angle()); }
    h_c02_hyp_sum { verify(&rules::hyp_sum()); }
    h_c02_hyp_exp { verify(&rules::hyp_exp()); }
    h_c02_powers { powers(); }
    h_c02_pow_sym { verify(&rules::pow_sym()); }
    h_c02_explog { verify(&rules::explog()); }
    h_c02_fractions { verify(&rules::fractions()); }
    h_c02_factoring { verify(&rules::factoring()); }
    h_c02_abs_roots { verify(&rules::abs_roots()); }
    h_c02_pair { verify(&rules::pair()); }
    h_c02_triple_t { verify(&rules::triple()); }
    h_c02_compose_t { rules::widen(); compose(); }
    h_c02_trig_sum_t { rules::widen(); verify(&rules::trig_sum()); }
    h_c02_trig_prod_t { rules::widen(); verify(&rules::trig_prod()); }
    h_c02_trig_angle_t { rules::widen(); verify(&rules::trig_angle()); }
    h_c02_hyp_sum_t { rules::widen(); verify(&rules::hyp_sum()); }
    h_c02_hyp_exp_t { rules::widen(); verify(&rules::hyp_exp()); }
    h_c02_powers_t { rules::widen(); powers(); }
    h_c02_explog_t { rules::widen(); verify(&rules::explog()); }
    h_c02_fractions_t { rules::widen(); verify(&rules::fractions()); }
    h_c02_factoring_t { rules::widen(); verify(&rules::factoring()); }
    h_c02_abs_roots_t { rules::widen(); verify(&rules::abs_roots()); }
    h_c02_pair_t { rules::widen(); verify(&rules::pair()); }
}
