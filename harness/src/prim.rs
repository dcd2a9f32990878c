//! Symbolic primitives. Under symx they are intercepted; natively they read a replay file.
unsafe extern "C" {
    fn sym_coef(id: u32, lo: i64, hi: i64) -> f64;
    fn sym_real(id: u32) -> f64;
    fn sym_int(id: u32, lo: i64, hi: i64) -> i64;
    fn sym_choice(id: u32, n: u32) -> u32;
    fn sym_split(id: u32, n: u32) -> u32;
    fn sym_byte(id: u32) -> u8;
    fn vassume(c: bool);
    fn vassert(c: bool, id: u32);
    fn vassert_eq(a: f64, b: f64, id: u32);
    fn vreach(id: u32);
    fn vnote(p: *const u8, n: usize);
    fn vskip() -> !;
    fn v_uf(id: u32, a: f64, b: f64) -> f64;
    fn v_thin() -> u32;
    fn v_poison() -> u32;
}
/// integer-valued coefficient in [lo, hi]
pub fn coef_in(lo: i64, hi: i64) -> f64 { unsafe { sym_coef(0, lo, hi) } }
pub fn coef() -> f64 { coef_in(-1000, 1000) }
/// a coefficient that is not zero
/// exponents are enumerated by the engine, so their range is small
pub fn expo() -> f64 { coef_in(-5, 6) }
pub fn nzcoef() -> f64 { let c = coef(); assume(c != 0.0); c }
/// arbitrary real
pub fn real() -> f64 { unsafe { sym_real(0) } }
pub fn int_in(lo: i64, hi: i64) -> i64 { unsafe { sym_int(0, lo, hi) } }
/// alternatives explored inside one task
pub fn choice(n: usize) -> usize { unsafe { sym_choice(0, n as u32) as usize } }
/// alternatives explored as separate tasks (only before any other symbolic input)
pub fn split(n: usize) -> usize { unsafe { sym_split(0, n as u32) as usize } }
pub fn byte() -> u8 { unsafe { sym_byte(0) } }
pub fn assume(c: bool) { unsafe { vassume(c) } }
pub fn check(c: bool, id: u32) { unsafe { vassert(c, id) } }
pub fn check_eq(a: f64, b: f64, id: u32) { unsafe { vassert_eq(a, b, id) } }
pub fn reach(id: u32) { unsafe { vreach(id) } }
pub fn note(s: &str) { unsafe { vnote(s.as_ptr(), s.len()) } }
pub fn skip() -> ! { unsafe { vskip() } }
/// uninterpreted function symbol
pub fn uf(id: u32, a: f64, b: f64) -> f64 { unsafe { v_uf(id, a, b) } }
/// the path pins a real input to an isolated value (never true in native runs)
pub fn thin() -> bool { unsafe { v_thin() != 0 } }
/// from here on fresh stack and heap memory holds a recognisable pattern
/// true in native runs
pub fn poison() -> bool { unsafe { v_poison() != 0 } }
pub fn fin(v: f64) -> bool { v.is_finite() }

/// declares harness functions and a table of them for native replay
#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $( #[unsafe(no_mangle)] pub extern "C-unwind" fn $name() { (|| $body)() } )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}
