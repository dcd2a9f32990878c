//! C06 compiled evaluation equals the mathematical value.
use super::prim::*;
use super::refm::*;
use super::cshapes;
use symb_anafis::{CompiledEvaluator, Expr};

pub fn verify(e: &Expr) {
    let env = Env::any();
    let r = val(e, &env);
    if !fin(r) { skip(); }
    let ev = match CompiledEvaluator::compile(e, &["x", "y", "z"], None) { Ok(d) => d, Err(_) => { check(false, 2); return; } };
    reach(1);
    let v = ev.evaluate(&[env.x, env.y, env.z]);
    if !fin(v) { check(thin(), 3); skip(); }
    check_eq(v, r, 1);
}
harness! {
    h_c06_fun1 { verify(&cshapes::fun1()); }
    h_c06_fun2 { verify(&cshapes::fun2()); }
    h_c06_pow { verify(&cshapes::pow()); }
    h_c06_sum3 { verify(&cshapes::sum3()); }
    h_c06_sumprod { verify(&cshapes::sumprod()); }
    h_c06_prod { verify(&cshapes::prod()); }
    h_c06_powp { verify(&cshapes::powp()); }
    h_c06_expm1 { verify(&cshapes::expm1()); }
    h_c06_poly { verify(&cshapes::poly()); }
    h_c06_cse { verify(&cshapes::cse()); }
}
