//! Native replay of one harness run: `vreplay HARNESS VALUES-FILE`
//! The symbolic primitives read the values recorded by symx in call order.
//! exit 0: held, 10: assertion failed, 11: panic, 12: path not taken (assumption failed / inputs exhausted)
#[path = "../../harness/src/lib.rs"]
mod h;
use std::sync::Mutex;
struct St { v: Vec<f64>, i: usize, tol: f64, fails: Vec<String> }
static ST: Mutex<St> = Mutex::new(St { v: Vec::new(), i: 0, tol: 1e-6, fails: Vec::new() });
fn next() -> f64 {
    let mut s = ST.lock().unwrap();
    let k = s.i;
    s.i += 1;
    match s.v.get(k) { Some(v) => *v, None => { println!("EXHAUSTED"); std::process::exit(12) } }
}
fn finish() -> ! {
    let s = ST.lock().unwrap();
    for f in &s.fails { println!("{}", f); }
    std::process::exit(if s.fails.is_empty() { 0 } else { 10 })
}
#[unsafe(no_mangle)] extern "C" fn sym_coef(_: u32, _: i64, _: i64) -> f64 { next() }
#[unsafe(no_mangle)] extern "C" fn sym_real(_: u32) -> f64 { next() }
#[unsafe(no_mangle)] extern "C" fn sym_int(_: u32, _: i64, _: i64) -> i64 { next() as i64 }
#[unsafe(no_mangle)] extern "C" fn sym_choice(_: u32, _: u32) -> u32 { next() as u32 }
#[unsafe(no_mangle)] extern "C" fn sym_split(_: u32, _: u32) -> u32 { next() as u32 }
#[unsafe(no_mangle)] extern "C" fn sym_byte(_: u32) -> u8 { next() as u8 }
#[unsafe(no_mangle)] extern "C" fn vassume(c: bool) { if !c { println!("ASSUME"); if ST.lock().unwrap().fails.is_empty() { std::process::exit(12) } else { finish() } } }
#[unsafe(no_mangle)] extern "C" fn vassert(c: bool, id: u32) { if !c { ST.lock().unwrap().fails.push(format!("FAIL {}", id)); } }
#[unsafe(no_mangle)] extern "C" fn vassert_eq(a: f64, b: f64, id: u32) {
    let mut s = ST.lock().unwrap();
    let ok = a == b || (a.is_nan() && b.is_nan()) || ((a - b).abs() <= s.tol * (1.0 + a.abs().max(b.abs())) && (a - b).is_finite());
    // overflow of large magnitudes is outside the claims
    let huge = a.abs().max(b.abs()) > 1e12;
    if !ok && !huge { s.fails.push(format!("FAIL {} {:?} != {:?}", id, a, b)); }
}
#[unsafe(no_mangle)] extern "C" fn vreach(_: u32) {}
#[unsafe(no_mangle)] extern "C" fn vnote(p: *const u8, n: usize) { println!("NOTE {}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) })); }
#[unsafe(no_mangle)] extern "C" fn vskip() -> ! { let e = ST.lock().unwrap().fails.is_empty(); if e { println!("SKIP"); std::process::exit(12) } finish() }
/// fills fresh heap blocks and the stack below with a pattern, so that reads of memory never written show
struct Fill;
static FILL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const PAT: u64 = 0xfff7_a5c3_a5c3_a5c3;
unsafe impl std::alloc::GlobalAlloc for Fill {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe {
            let p = std::alloc::System.alloc(l);
            if !p.is_null() && FILL.load(std::sync::atomic::Ordering::Relaxed) { for i in 0..l.size() { p.add(i).write((PAT >> (8 * (i % 8))) as u8); } }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator] static ALLOC: Fill = Fill;
#[inline(never)]
fn scribble() {
    let mut a = [0u64; 32768];
    for v in a.iter_mut() { unsafe { std::ptr::write_volatile(v, PAT); } }
    std::hint::black_box(&a);
}
#[unsafe(no_mangle)] extern "C" fn v_poison() -> u32 { FILL.store(true, std::sync::atomic::Ordering::Relaxed); scribble(); 1 }
#[unsafe(no_mangle)] extern "C" fn v_thin() -> u32 { 0 }
#[unsafe(no_mangle)] extern "C" fn v_uf(id: u32, a: f64, b: f64) -> f64 {
    use h::refm::*;
    let (name, one) = match id {
        ERF => ("erf", true), GAMMA => ("gamma", true), LAMBERTW => ("lambertw", true), ELLK => ("elliptic_k", true), ELLE => ("elliptic_e", true),
        POLYGAMMA => ("polygamma", false), BETA => ("beta", false), BJ => ("besselj", false), BY => ("bessely", false), BI => ("besseli", false), BK => ("besselk", false), ZETAD => ("zeta_deriv", false), HERMITE => ("hermite", false),
        _ => return (a * 1.37 + b * 0.73 + id as f64 * 0.11).sin() + 0.31 * a * b,
    };
    let e = |v: f64| symb_anafis::Expr::number(v);
    let x = if one { symb_anafis::Expr::func(name, e(a)) } else { symb_anafis::Expr::func_multi(name, vec![e(a), e(b)]) };
    let vars: std::collections::HashMap<&str, f64> = Default::default();
    x.evaluate(&vars, &Default::default()).as_number().unwrap_or(f64::NAN)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).expect("values");
    ST.lock().unwrap().v = txt.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
    if let Some(t) = a.get(3) { ST.lock().unwrap().tol = t.parse().unwrap(); }
    let f = h::table().into_iter().find(|t| t.0 == a[1]).expect("harness");
    h::h_init();
    let fun = f.1;
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || std::panic::catch_unwind(|| fun())).unwrap().join();
    match r { Ok(Ok(())) => finish(), _ => { println!("PANIC"); std::process::exit(11) } }
}
