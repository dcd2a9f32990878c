//! C03 domain-safe simplification keeps the domain and the value.
use super::prim::*;
use super::refm::*;
use super::rules;
use symb_anafis::{Expr, Simplify};

fn verify(e: &Expr) { verify_at(e, false) }
fn verify_at(e: &Expr, nonzero_z: bool) {
    let s = match Simplify::new().domain_safe(true).simplify(e) { Ok(s) => s, Err(_) => { check(false, 2); return; } };
    let env = Env::any();
    // 0^0 counts as undefined where the exponent is a variable
    if nonzero_z { assume(env.z != 0.0); }
    let r = val(e, &env);
    if !fin(r) { skip(); }
    let v = val(&s, &env);
    reach(1);
    if !fin(v) { check(false, 3); skip(); }
    check_eq(v, r, 1);
}
harness! {
    h_c03_fun1 { verify(&rules::fun1()); }
    h_c03_compose { verify(&rules::compose().0); }
    h_c03_trig_pi { verify(&rules::trig_pi()); }
    h_c03_trig_num { verify(&rules::trig_num()); }
    h_c03_trig_sum { verify(&rules::trig_sum()); }
    h_c03_trig_prod { verify(&rules::trig_prod()); }
    h_c03_trig_angle { verify(&rules::trig_angle()); }
    h_c03_hyp_sum { verify(&rules::hyp_sum()); }
    h_c03_hyp_exp { verify(&rules::hyp_exp()); }
    h_c03_powers { verify(&rules::powers().0); }
    h_c03_pow_sym { verify_at(&rules::pow_sym(), true); }
    h_c03_explog { verify(&rules::explog()); }
    h_c03_fractions { verify(&rules::fractions()); }
    h_c03_factoring { verify(&rules::factoring()); }
    h_c03_abs_roots { verify(&rules::abs_roots()); }
    h_c03_pair { verify(&rules::pair()); }
    h_c03_triple_t { verify(&rules::triple()); }
    h_c03_compose_t { rules::widen(); verify(&rules::compose().0); }
    h_c03_trig_sum_t { rules::widen(); verify(&rules::trig_sum()); }
    h_c03_trig_prod_t { rules::widen(); verify(&rules::trig_prod()); }
    h_c03_trig_angle_t { rules::widen(); verify(&rules::trig_angle()); }
    h_c03_hyp_sum_t { rules::widen(); verify(&rules::hyp_sum()); }
    h_c03_hyp_exp_t { rules::widen(); verify(&rules::hyp_exp()); }
    h_c03_powers_t { rules::widen(); verify(&rules::powers().0); }
    h_c03_explog_t { rules::widen(); verify(&rules::explog()); }
    h_c03_fractions_t { rules::widen(); verify(&rules::fractions()); }
    h_c03_factoring_t { rules::widen(); verify(&rules::factoring()); }
    h_c03_abs_roots_t { rules::widen(); verify(&rules::abs_roots()); }
    h_c03_pair_t { rules::widen(); verify(&rules::pair()); }
}
