//! Harnesses executed symbolically by symx (and natively by ../replay).
#![allow(dead_code, clippy::all)]
#[macro_use]
pub mod prim;
pub mod reader;
pub mod refm;
pub mod shapes;
pub mod rules;
pub mod tgen;
pub mod pgen;
pub mod cshapes;
pub mod jet;
// BEGIN MODS
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
// END MODS

/// run once, concretely, before every exploration: fills lazily initialised tables
#[unsafe(no_mangle)]
pub extern "C" fn h_init() { shapes::warm(); }

/// never executed: a second caller of every numeric routine, so that none is inlined into its only user
#[unsafe(no_mangle)]
pub extern "C" fn h_keep() {
    let (mut i, mut s) = (0, 0.0);
    for f in shapes::F1.iter().chain(shapes::F2) {
        let e = symb_anafis::Expr::func_multi(f, (0..prim::choice(9)).map(|_| shapes::x()).collect());
        i += 1;
        if let Ok(c) = symb_anafis::CompiledEvaluator::compile(&e, &["x"], None) { s += c.evaluate(&[i as f64]); }
        if let Some(v) = e.evaluate(&std::collections::HashMap::from([("x", 1.0)]), &std::collections::HashMap::new()).as_number() { s += v; }
    }
    #[cfg(any(feature = "c07", feature = "c08"))]
    {
        let v = wide::f64x4::splat(s);
        s += v.exp().to_array()[0] + v.ln().to_array()[1] + v.pow_f64x4(v).to_array()[2];
    }
    prim::check(s > 0.0, 1);
}

/// harness functions by name (native replay only)
pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
    // BEGIN TAB
    #[cfg(feature = "c01")] v.extend(c01::TABLE);
    #[cfg(feature = "c02")] v.extend(c02::TABLE);
    #[cfg(feature = "c03")] v.extend(c03::TABLE);
    #[cfg(feature = "c04")] v.extend(c04::TABLE);
    #[cfg(feature = "c05")] v.extend(c05::TABLE);
    #[cfg(feature = "c06")] v.extend(c06::TABLE);
    #[cfg(feature = "c07")] v.extend(c07::TABLE);
    #[cfg(feature = "c08")] v.extend(c08::TABLE);
    #[cfg(feature = "c09")] v.extend(c09::TABLE);
    #[cfg(feature = "c10")] v.extend(c10::TABLE);
    #[cfg(feature = "c11")] v.extend(c11::TABLE);
    #[cfg(feature = "c12")] v.extend(c12::TABLE);
    #[cfg(feature = "c13")] v.extend(c13::TABLE);
    #[cfg(feature = "c14")] v.extend(c14::TABLE);
    #[cfg(feature = "c16")] v.extend(c16::TABLE);
    #[cfg(feature = "c17")] v.extend(c17::TABLE);
    #[cfg(feature = "c18")] v.extend(c18::TABLE);
    #[cfg(feature = "c19")] v.extend(c19::TABLE);
    #[cfg(feature = "c21")] v.extend(c21::TABLE);
    #[cfg(feature = "c23")] v.extend(c23::TABLE);
    #[cfg(feature = "c24")] v.extend(c24::TABLE);
    // END TAB
    v
}
