//! Intrinsics: harness primitives, libc/libm, LLVM intrinsics.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum B {
    None = 0,
    SymCoef, SymReal, SymChoice, SymSplit, SymByte, SymInt, Assume, Assert, AssertEq, Reach, Note, NoteNum, Skip, IsSym, Uf, Nondom, Prefer, Thin, Poison,
    Panic, Malloc, Calloc, Realloc, Free, Memalign, Memcpy, Memset, Memcmp, Bcmp, Strlen, Syscall, Getrandom, KeyCreate, KeyDelete, GetSpecific, SetSpecific, Write, Writev, Getenv, Ret0, Errno,
    M1, Powi, Pow, Atan2, Hypot, Fma, CopySign, MinMax, FpClass,
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fsh, IMinMax, IAbs, Sat, Ovf, ScmpUcmp, FToISat, IsConst, Expect, TlsAddr, Trap, Pause, Reduce, ObjSize, Ptrmask, Unknown, LdMask, Opaque, CmpPd, Wide,
}
const WIDE: [(&str, &str); 4] = [("5f64x43exp", "exp"), ("5f64x42ln", "log"), ("9powf_simd", "pow"), ("9pow_f64x4", "pow")];
/// special functions modelled as uninterpreted: mangled fragment, id, takes an order, returns Option, fixed order
pub const OPAQUE: &[(&str, u32, bool, bool, f64)] = &[
    ("4math7special8eval_erfdE", 1, false, false, 0.0), ("4math7special10eval_gammadE", 3, false, true, 0.0),
    ("4math7special12eval_digammadE", 4, false, true, 0.0), ("4math7special13eval_trigammadE", 4, false, true, 1.0), ("4math7special15eval_tetragammadE", 4, false, true, 2.0), ("4math7special14eval_polygammadE", 4, true, true, 0.0),
    ("4math7special9eval_zetadE", 13, false, true, 0.0), ("4math7special15eval_zeta_derivdE", 13, true, true, 0.0), ("4math7special14eval_lambert_wdE", 10, false, true, 0.0),
    ("4math8elliptic15eval_elliptic_kdE", 11, false, true, 0.0), ("4math8elliptic15eval_elliptic_edE", 12, false, true, 0.0),
    ("4math6bessel8bessel_jdE", 6, true, true, 0.0), ("4math6bessel8bessel_ydE", 7, true, true, 0.0), ("4math6bessel8bessel_idE", 8, true, false, 0.0), ("4math6bessel8bessel_kdE", 9, true, true, 0.0),
];
pub const M1: &[&str] = &["sin", "cos", "tan", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sqrt", "fabs", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt"];

impl Exec {
    #[inline]
    pub fn builtin_id(&mut self, fi: usize) -> u32 {
        let b = self.bi[fi];
        if b != u32::MAX { return b; }
        let name = self.m.fns[fi].name.clone();
        let has = self.m.fns[fi].text.is_some();
        let r = self.classify(&name, has) as u32;
        self.bi[fi] = r;
        r
    }
    fn classify(&self, n: &str, has: bool) -> B {
        match n {
            "sym_coef" => return B::SymCoef, "sym_real" => return B::SymReal, "sym_choice" => return B::SymChoice, "sym_split" => return B::SymSplit, "sym_byte" => return B::SymByte, "sym_int" => return B::SymInt,
            "vassume" => return B::Assume, "vassert" => return B::Assert, "vassert_eq" => return B::AssertEq, "vreach" => return B::Reach, "vnote" => return B::Note, "vnote_num" => return B::NoteNum, "vskip" => return B::Skip, "v_is_symbolic" => return B::IsSym, "v_uf" => return B::Uf, "v_prefer" => return B::Prefer, "v_thin" => return B::Thin, "v_poison" => return B::Poison,
            _ => {}
        }
        if self.cfg.opaque && n.contains("symb_anafis4math") && OPAQUE.iter().any(|o| n.contains(o.0)) { return B::Opaque; }
        if n.contains("4core9panicking") || n.contains("begin_panic") || n.contains("18handle_alloc_error") || n.contains("rust_panic") || n.contains("__rust_start_panic") || (n.contains("7raw_vec12handle_error")) { return B::Panic; }
        // lane functions of the vector crate (a dependency): taken as the exact functions
        if has && n.contains("4wide6f64x4_") && n.contains("5f64x4") { for (f, _) in WIDE { if n.ends_with(f) { return B::Wide; } } }
        if let Some(r) = n.strip_prefix("llvm.") {
            let head = |s: &str| r == s || r.starts_with(&format!("{}.", s));
            if head("memcpy") || head("memmove") { return B::Memcpy; }
            if head("memset") { return B::Memset; }
            for m in M1 { if head(m) { return B::M1; } }
            if head("powi") { return B::Powi; }
            if head("pow") { return B::Pow; }
            if head("atan2") { return B::Atan2; }
            if head("fma") || head("fmuladd") { return B::Fma; }
            if head("copysign") { return B::CopySign; }
            for m in ["maxnum", "minnum", "maximum", "minimum", "maximumnum", "minimumnum"] { if head(m) { return B::MinMax; } }
            if r.starts_with("is.fpclass") { return B::FpClass; }
            if head("ctlz") { return B::Ctlz; }
            if head("cttz") { return B::Cttz; }
            if head("ctpop") { return B::Ctpop; }
            if head("bswap") { return B::Bswap; }
            if head("bitreverse") { return B::Bitrev; }
            if head("fshl") || head("fshr") { return B::Fsh; }
            for m in ["umax", "umin", "smax", "smin"] { if head(m) { return B::IMinMax; } }
            if head("abs") { return B::IAbs; }
            if r.starts_with("fptosi.sat") || r.starts_with("fptoui.sat") { return B::FToISat; }
            if r.contains(".with.overflow.") { return B::Ovf; }
            if r.contains(".sat.") { return B::Sat; }
            if head("scmp") || head("ucmp") { return B::ScmpUcmp; }
            if r.starts_with("is.constant") { return B::IsConst; }
            if head("expect") { return B::Expect; }
            if r.starts_with("threadlocal.address") { return B::TlsAddr; }
            if r == "trap" || r == "debugtrap" || r == "ubsantrap" { return B::Trap; }
            if r == "x86.sse2.cmp.pd" { return B::CmpPd; }
            if r.starts_with("x86.sse2.pause") { return B::Pause; }
            if r.starts_with("vector.reduce.") { return B::Reduce; }
            if r.starts_with("objectsize") { return B::ObjSize; }
            return B::Unknown;
        }
        if has { return match n { "memcmp" => B::Memcmp, "bcmp" => B::Bcmp, "memcpy" | "memmove" => B::Memcpy, "memset" => B::Memset, _ => B::None }; }
        if M1.contains(&n) { return B::M1; }
        match n {
            "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free, "posix_memalign" => B::Memalign, "aligned_alloc" => B::Memalign,
            "memcpy" | "memmove" => B::Memcpy, "memset" => B::Memset, "memcmp" => B::Memcmp, "bcmp" => B::Bcmp, "strlen" => B::Strlen,
            "syscall" => B::Syscall, "getrandom" => B::Getrandom, "pthread_key_create" => B::KeyCreate, "pthread_key_delete" => B::KeyDelete, "pthread_getspecific" => B::GetSpecific, "pthread_setspecific" => B::SetSpecific,
            "write" => B::Write, "writev" => B::Writev, "getenv" => B::Getenv, "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" | "nanosleep" | "clock_gettime" | "sysconf" | "pthread_mutex_lock" | "pthread_mutex_unlock" => B::Ret0,
            "__errno_location" => B::Errno,
            "abort" | "_Unwind_RaiseException" | "exit" | "_exit" => B::Panic,
            "pow" => B::Pow, "atan2" => B::Atan2, "hypot" => B::Hypot, "fma" => B::Fma, "fmod" => B::Unknown,
            _ => B::Unknown,
        }
    }
    fn nan_or(&self, v: f64) -> V { V::f(v) }
    pub fn math1(&mut self, st: &mut State, name: &str, v: V) -> X<V> {
        if v.t == 0 {
            let x = f64::from_bits(v.lo);
            return Ok(V::f(match name {
                "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "exp" => x.exp(), "exp2" => x.exp2(), "expm1" => x.exp_m1(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "log1p" => x.ln_1p(),
                "sqrt" => x.sqrt(), "fabs" => x.abs(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "roundeven" | "rint" | "nearbyint" => x.round_ties_even(),
                "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(), "cbrt" => x.cbrt(),
                _ => return Err(Stop::Unsup(format!("math {}", name))),
            }));
        }
        let v = if name == "fabs" { v } else { self.force_ite(st, v)? };
        if v.t == 0 { return self.math1(st, name, v); }
        let t = self.real(v).unwrap();
        let one = self.s.int(1);
        let s = |me: &mut Exec, f: Fun, t: T| -> V { let r = me.s.func(f, vec![t]); me.vreal(r) };
        Ok(match name {
            "sin" => s(self, Fun::Sin, t),
            "cos" => s(self, Fun::Cos, t),
            "tan" => s(self, Fun::Tan, t),
            "exp" => s(self, Fun::Exp, t),
            "exp2" => { let two = self.s.int(2); let l = self.s.func(Fun::Ln, vec![two]); let u = self.s.mul(t, l); s(self, Fun::Exp, u) }
            "expm1" => { let e = self.s.func(Fun::Exp, vec![t]); let r = self.s.sub(e, one); self.vreal(r) }
            "log" | "log2" | "log10" | "log1p" => {
                let u = if name == "log1p" { self.s.add(t, one) } else { t };
                let c = self.s.rcmp0(RK::Le, u);
                if self.decide(st, c)? {
                    let z = self.s.rcmp0(RK::Eq, u);
                    return Ok(if self.decide(st, z)? { V::f(f64::NEG_INFINITY) } else { V::f(f64::NAN) });
                }
                let l = self.s.func(Fun::Ln, vec![u]);
                let b = match name { "log2" => 2, "log10" => 10, _ => 0 };
                if b == 0 { self.vreal(l) } else { let bt = self.s.int(b); let lb = self.s.func(Fun::Ln, vec![bt]); let r = self.s.div(l, lb); self.vreal(r) }
            }
            "sqrt" => {
                let c = self.s.rcmp0(RK::Lt, t);
                if self.decide(st, c)? { return Ok(V::f(f64::NAN)); }
                let z = self.s.rcmp0(RK::Eq, t);
                if self.decide(st, z)? { return Ok(V::f(0.0)); }
                s(self, Fun::Sqrt, t)
            }
            "cbrt" => {
                let z = self.s.rcmp0(RK::Eq, t);
                if self.decide(st, z)? { return Ok(V::f(0.0)); }
                s(self, Fun::Cbrt, t)
            }
            "fabs" => {
let r = self.s.abs(t); self.vreal(r)
            }
            "trunc" => { let r = self.trunc(st, t)?; self.vreal(r) }
            "floor" | "ceil" => {
                if self.s.info[t as usize].int { return Ok(v); }
                if self.s.dep(t) & (D_REAL | D_FN | D_BV) == 0 && { let i = self.s.info[t as usize]; i.hi - i.lo <= 64.0 } {
                    let k = self.trunc(st, t)?;
                    let e = self.s.rcmp(RK::Eq, k, t);
                    if self.decide(st, e)? { return Ok(self.vreal(k)); }
                    let neg = self.s.rcmp0(RK::Lt, t);
                    let n = self.decide(st, neg)?;
                    let r = match (name, n) { ("floor", true) => self.s.sub(k, one), ("ceil", false) => self.s.add(k, one), _ => k };
                    return Ok(self.vreal(r));
                }
                s(self, if name == "floor" { Fun::Floor } else { Fun::Ceil }, t)
            }
            "round" => {
                if self.s.info[t as usize].int { return Ok(v); }
                if self.s.dep(t) & (D_REAL | D_FN | D_BV) == 0 {
                    let neg = self.s.rcmp0(RK::Lt, t);
                    let n = self.decide(st, neg)?;
                    let u = if n { self.s.neg(t) } else { t };
                    let h = self.s.rat(Rat::new(1, 2));
                    let u = self.s.add(u, h);
                    let k = self.trunc(st, u)?;
                    let r = if n { self.s.neg(k) } else { k };
                    return Ok(self.vreal(r));
                }
                s(self, Fun::Round, t)
            }
            "roundeven" | "rint" | "nearbyint" => { if self.s.info[t as usize].int { return Ok(v); } return Err(Stop::Unsup("round ties even".into())); }
            "asin" | "acos" => {
                let hi = self.s.rcmp(RK::Lt, one, t);
                if self.decide(st, hi)? { return Ok(self.nan_or(f64::NAN)); }
                let m1 = self.s.int(-1);
                let lo = self.s.rcmp(RK::Lt, t, m1);
                if self.decide(st, lo)? { return Ok(V::f(f64::NAN)); }
                s(self, if name == "asin" { Fun::Asin } else { Fun::Acos }, t)
            }
            "atan" => s(self, Fun::Atan, t),
            "sinh" => s(self, Fun::Sinh, t),
            "cosh" => s(self, Fun::Cosh, t),
            "tanh" => s(self, Fun::Tanh, t),
            "asinh" => s(self, Fun::Asinh, t),
            "acosh" => {
                let c = self.s.rcmp(RK::Lt, t, one);
                if self.decide(st, c)? { return Ok(V::f(f64::NAN)); }
                let z = self.s.rcmp(RK::Eq, t, one);
                if self.decide(st, z)? { return Ok(V::f(0.0)); }
                s(self, Fun::Acosh, t)
            }
            "atanh" => {
                let m1 = self.s.int(-1);
                for (k, inf) in [(one, f64::INFINITY), (m1, f64::NEG_INFINITY)] {
                    let e = self.s.rcmp(RK::Eq, t, k);
                    if self.decide(st, e)? { return Ok(V::f(inf)); }
                }
                let hi = self.s.rcmp(RK::Lt, one, t);
                if self.decide(st, hi)? { return Ok(V::f(f64::NAN)); }
                let lo = self.s.rcmp(RK::Lt, t, m1);
                if self.decide(st, lo)? { return Ok(V::f(f64::NAN)); }
                s(self, Fun::Atanh, t)
            }
            _ => return Err(Stop::Unsup(format!("math {}", name))),
        })
    }
    pub fn powi(&mut self, st: &mut State, v: V, n: i64) -> X<V> {
        if v.t == 0 { return Ok(V::f(f64::from_bits(v.lo).powi(n as i32))); }
        if n == 0 { return Ok(V::f(1.0)); }
        let v = self.force_ite(st, v)?;
        if v.t == 0 { return self.powi(st, v, n); }
        let t = self.real(v).unwrap();
        if n < 0 {
            let z = self.s.rcmp0(RK::Eq, t);
            if self.decide(st, z)? { return Ok(V::f(f64::INFINITY)); }
        }
        if n.abs() > 64 { return Err(Stop::Unsup(format!("power {}", n))); }
        let r = self.s.powi(t, n as i32);
        self.ovf_check()?;
        Ok(self.vreal(r))
    }
    pub fn pow(&mut self, st: &mut State, a: V, b: V) -> X<V> {
        let (a, b) = (self.force_ite(st, a)?, self.force_ite(st, b)?);
        if a.t == 0 && b.t == 0 { return Ok(V::f(f64::from_bits(a.lo).powf(f64::from_bits(b.lo)))); }
        if b.t == 0 {
            let y = f64::from_bits(b.lo);
            if y.is_nan() { return Ok(V::f(f64::NAN)); }
            if y.is_infinite() {
                let t = self.real(a).unwrap();
                let at = self.s.abs(t);
                let one = self.s.int(1);
                let eq = self.s.rcmp(RK::Eq, at, one);
                if self.decide(st, eq)? { return Ok(V::f(1.0)); }
                let lt = self.s.rcmp(RK::Lt, at, one);
                let l = self.decide(st, lt)?;
                return Ok(V::f(if l == (y > 0.0) { 0.0 } else { f64::INFINITY }));
            }
            if y.fract() == 0.0 && y.abs() <= 64.0 { return self.powi(st, a, y as i64); }
            let r = snap(y);
            let t = self.real(a).unwrap();
            // non-integer exponent: negative base is NaN
            let neg = self.s.rcmp0(RK::Lt, t);
            if y.fract() != 0.0 && self.decide(st, neg)? { return Ok(V::f(f64::NAN)); }
            let z = self.s.rcmp0(RK::Eq, t);
            if self.decide(st, z)? { return Ok(V::f(if y > 0.0 { 0.0 } else { f64::INFINITY })); }
            if let Some(r) = r {
                if r.d == 2 && r.n.abs() < 64 { let q = self.s.func(Fun::Sqrt, vec![t]); let p = self.s.powi(q, r.n as i32); self.ovf_check()?; return Ok(self.vreal(p)); }
                if r.d == 3 && r.n.abs() < 64 { let q = self.s.func(Fun::Cbrt, vec![t]); let p = self.s.powi(q, r.n as i32); self.ovf_check()?; return Ok(self.vreal(p)); }
            }
            if y.fract() == 0.0 { return Err(Stop::Unsup(format!("power {}", y))); }
            let l = self.s.func(Fun::Ln, vec![t]);
            let yt = self.from_f64(y);
            let p = self.s.mul(l, yt);
            let e = self.s.func(Fun::Exp, vec![p]);
            return Ok(self.vreal(e));
        }
        let y = self.real(b).unwrap();
        if a.t == 0 {
            let x = f64::from_bits(a.lo);
            if !x.is_finite() { return Err(Stop::Unsup("pow(nonfinite, symbolic)".into())); }
            if x == 1.0 { return Ok(V::f(1.0)); }
        }
        let x = self.real(a).unwrap();
        let yz = self.s.rcmp0(RK::Eq, y);
        if self.decide(st, yz)? { return Ok(V::f(1.0)); }
        let xz = self.s.rcmp0(RK::Eq, x);
        if self.decide(st, xz)? {
            let s = self.sign_of(st, y)?;
            return Ok(V::f(if s > 0.0 { 0.0 } else { f64::INFINITY }));
        }
        // small integer exponents are exact monomials
        if self.s.dep(y) & (D_REAL | D_FN) == 0 {
            for k in [1i64, 2, -1] {
                let kt = self.s.int(k as i128);
                let c = self.s.rcmp(RK::Eq, y, kt);
                if self.decide(st, c)? { return self.powi(st, a, k); }
            }
        }
        let xn = self.s.rcmp0(RK::Lt, x);
        if self.decide(st, xn)? {
            if self.s.info[y as usize].int && self.s.dep(y) & D_REAL == 0 {
                let k = self.concretize_real(st, y)?;
                return self.powi(st, a, k as i64);
            }
            if self.s.dep(y) & (D_REAL | D_FN) == 0 {
                let k = self.trunc(st, y)?;
                let e = self.s.rcmp(RK::Eq, k, y);
                if self.decide(st, e)? { let k = self.concretize_real(st, y)?; return self.powi(st, a, k as i64); }
                return Ok(V::f(f64::NAN));
            }
            // real exponent: integers are a null set; treat as NaN except where the path pins the value
            st.bigap = true;
            return Ok(V::f(f64::NAN));
        }
        let l = self.s.func(Fun::Ln, vec![x]);
        let p = self.s.mul(l, y);
        let e = self.s.func(Fun::Exp, vec![p]);
        Ok(self.vreal(e))
    }
    fn new_input(&mut self, st: &mut State, id: u32, k: VarKind) -> u32 {
        let v = self.s.new_var(k);
        st.inputs.push(Input { id, kind: InKind::Var(v) });
        if let Some(m) = &st.model {
            let mut m: Vec<f64> = m.to_vec();
            while m.len() <= v as usize { m.push(f64::NAN); }
            m[v as usize] = self.fresh_value_in(st, v);
            st.model = Some(std::rc::Rc::new(m));
        }
        v
    }
    pub fn builtin(&mut self, st: &mut State, b: u32, fi: usize, ci: &CallI, args: &[V]) -> X<()> {
        let b: B = unsafe { std::mem::transmute(b) };
        macro_rules! done { ($($v:expr),*) => {{ let r = [$($v),*]; self.finish(st, ci, &r); return Ok(()); }} }
        macro_rules! void { () => {{ self.finish(st, ci, &[]); return Ok(()); }} }
        let name = &self.m.fns[fi].name;
        let rw = |t: &Ty| t.lane().1.bits();
        match b {
            B::None => unreachable!(),
            B::SymCoef => {
                let (lo, hi) = (args[1].lo as i64, args[2].lo as i64);
                let v = self.new_input(st, args[0].lo as u32, VarKind::Coef(lo, hi));
                let t = self.s.rvar(v);
                done!(V { lo: 0, hi: 0, t })
            }
            B::SymReal => { let v = self.new_input(st, args[0].lo as u32, VarKind::Real); let t = self.s.rvar(v); done!(V { lo: 0, hi: 0, t }) }
            B::SymInt => {
                let (lo, hi) = (args[1].lo as i64, args[2].lo as i64);
                let v = self.new_input(st, args[0].lo as u32, VarKind::Coef(lo, hi));
                let t = self.s.rvar(v);
                let t = self.s.breal(t, 64);
                done!(V { lo: 0, hi: 0, t })
            }
            B::SymByte => { let v = self.new_input(st, args[0].lo as u32, VarKind::Bv(8)); let t = self.s.mk(N::BVar(v, 8)); done!(V { lo: 0, hi: 0, t }) }
            B::SymChoice => {
                let n = args[1].lo as u32;
                let id = args[0].lo as u32;
                if n <= 1 { st.inputs.push(Input { id, kind: InKind::Const(0.0) }); done!(V::c(0)) }
                return Err(Stop::Choice { n, dst: ci.dst, id });
            }
            B::SymSplit => {
                let n = args[1].lo as u32;
                let id = args[0].lo as u32;
                if st.choices < self.prefix.len() {
                    let v = self.prefix[st.choices];
                    st.choices += 1;
                    st.inputs.push(Input { id, kind: InKind::Const(v as f64) });
                    done!(V::c(v as u64))
                }
                return Err(Stop::Split(n));
            }
            B::Assume => {
                let c = self.boolean(args[0]);
                if c == FALSE { return Err(Stop::Dead); }
                if c != TRUE {
                    match self.forced(st, c) { Some(false) => return Err(Stop::Dead), Some(true) => {}, None => { self.finish(st, ci, &[]); if !self.add_cond(st, c) { return Err(Stop::Dead); } self.refresh_model(st); return Ok(()); } }
                }
                void!()
            }
            B::Assert => { let c = self.boolean(args[0]); self.ob_bool(st, c, args[1].lo as u32); void!() }
            B::AssertEq => { self.ob_eq(st, args[0], args[1], args[2].lo as u32); void!() }
            B::Reach => { *self.st.reach.entry(args[0].lo as u32).or_insert(0) += 1; void!() }
            B::Note => {
                let (p, n) = (args[0].lo, args[1].lo);
                let mut s = String::new();
                for i in 0..n.min(400) { match st.mem.byte(p + i) { Ok((c, 0, _)) => s.push(c as char), _ => s.push('?') } }
                st.notes.push(s);
                void!()
            }
            B::NoteNum => {
                let s = if args[0].t == 0 { format!("{}", f64::from_bits(args[0].lo)) } else { self.s.show(args[0].t) };
                st.notes.push(s);
                void!()
            }
            B::Skip => Err(Stop::Dead),
            B::IsSym => done!(V::c(1)),
            B::Prefer => void!(),
            B::Poison => { st.mem.poison = true; done!(V::c(0)) }
            B::Thin => {
                let mut thin = st.defs.iter().any(|(v, _)| matches!(self.s.vars[*v as usize], VarKind::Real));
                for c in &st.pc { if let N::RCmp(RK::Eq, _) = self.s.n(*c) { if self.s.dep(*c) & D_REAL != 0 { thin = true; } } }
                done!(V::c(thin as u64))
            }
            B::Nondom => void!(),
            B::Uf => {
                // v_uf(id, a, b): uninterpreted function of two reals
                let (x, y) = match (self.real(args[1]), self.real(args[2])) { (Some(x), Some(y)) => (x, y), _ => done!(V::f(f64::NAN)) };
                let f = self.s.opaque_fn(&format!("uf{}", args[0].lo));
                let t = self.s.func(f, vec![x, y]);
                done!(V { lo: 0, hi: 0, t })
            }
            B::Opaque => {
                let o = OPAQUE.iter().find(|o| name.contains(o.0)).unwrap();
                let (ord, x) = if o.2 { if args[0].t != 0 { return Err(Stop::Unsup("symbolic order of a special function".into())); } (args[0].lo as u32 as i32 as f64, args[1]) } else { (o.4, args[0]) };
                // one-argument functions use (x, 0) like the reference
                let two = matches!(o.1, 4 | 13 | 6 | 7 | 8 | 9);
                let Some(xt) = self.real(x) else { if o.3 { done!(V::c(0), V::f(0.0)) } else { done!(V::f(f64::NAN)) } };
                let ot = self.from_f64(ord);
                let f = self.s.opaque_fn(&format!("uf{}", o.1));
                let t = if two { self.s.func(f, vec![ot, xt]) } else { self.s.func(f, vec![xt, ot]) };
                let v = V { lo: 0, hi: 0, t };
                if o.3 { done!(V::c(1), v) } else { done!(v) }
            }
            B::Panic => {
                let mut msg = short_name(name);
                // core::panicking::panic(ptr, len, loc)
                if args.len() >= 2 && args[0].t == 0 && args[1].t == 0 && args[1].lo < 200 && msg.ends_with("panic") {
                    let mut s = String::new();
                    for i in 0..args[1].lo { if let Ok((c, 0, _)) = st.mem.byte(args[0].lo + i) { s.push(c as char); } }
                    msg = format!("{}: {}", msg, s);
                }
                Err(Stop::Panic(format!("{} in {}", msg, self.trace(st))))
            }
            B::Malloc | B::Calloc => {
                let n = if b == B::Malloc { self.conc(st, args[0], 64)? as u64 } else { let (x, y) = (self.conc(st, args[0], 64)? as u64, self.conc(st, args[1], 64)? as u64); x.saturating_mul(y) };
                if n > 64 << 20 { return Err(Stop::Panic(format!("allocation of {} bytes in {}", n, self.trace(st)))); }
                let a = st.mem.malloc(n, 16);
                if b == B::Calloc && st.mem.poison { st.mem.zero(a, n); }
                done!(V::c(a))
            }
            B::Memalign => {
                let (p, al, n) = (args[0].lo, args[1].lo, self.conc(st, args[2], 64)? as u64);
                if n > 64 << 20 { return Err(Stop::Panic(format!("allocation of {} bytes in {}", n, self.trace(st)))); }
                let a = st.mem.malloc(n, al);
                self.store(st, p, V::c(a), Leaf::Ptr)?;
                done!(V::c(0))
            }
            B::Realloc => {
                let (p, n) = (args[0].lo, self.conc(st, args[1], 64)? as u64);
                if n > 64 << 20 { return Err(Stop::Panic(format!("allocation of {} bytes in {}", n, self.trace(st)))); }
                let old = if p == 0 { 0 } else { match st.mem.block_size(p) { Some(x) if st.mem.is_valid(p, 1).is_ok() => x, _ => return self.bug(st, "realloc of invalid block", p) } };
                let a = st.mem.malloc(n, 16);
                if p != 0 { if let Err(x) = st.mem.copy(a, p, old.min(n)) { return self.bug(st, "realloc copy", x); } let _ = st.mem.free(p); }
                done!(V::c(a))
            }
            B::Free => {
                let p = args[0].lo;
                if p != 0 { if let Err(x) = st.mem.free(p) { return self.bug(st, "invalid free", x); } }
                void!()
            }
            B::Memcpy => {
                let d = self.addr(st, args[0])?;
                let s = self.addr(st, args[1])?;
                let n = self.conc(st, args[2], 64)? as u64;
                if let Err(x) = st.mem.copy(d, s, n) { return self.bug(st, &format!("invalid memory copy of {} bytes", n), x); }
                if ci.ret != Ty::Void { done!(V::c(d)) }
                void!()
            }
            B::Memset => {
                let d = self.addr(st, args[0])?;
                let v = self.conc(st, args[1], 8)? as u8;
                let n = self.conc(st, args[2], 64)? as u64;
                if let Err(x) = st.mem.fill(d, v, n) { return self.bug(st, "invalid memory fill", x); }
                if ci.ret != Ty::Void { done!(V::c(d)) }
                void!()
            }
            B::Memcmp | B::Bcmp => {
                let p = self.addr(st, args[0])?;
                let q = self.addr(st, args[1])?;
                let n = self.conc(st, args[2], 64)? as u64;
                let mut r = 0i32;
                for i in 0..n {
                    let (x, y) = (self.load(st, p + i, Leaf::Int(8))?, self.load(st, q + i, Leaf::Int(8))?);
                    if x.t == 0 && y.t == 0 { if x.lo != y.lo { r = if x.lo < y.lo { -1 } else { 1 }; break; } continue; }
                    let e = self.icmp(st, IP::Eq, 8, x, y)?;
                    let e = self.boolean(e);
                    if self.decide(st, e)? { continue; }
                    if b == B::Bcmp { r = 1; break; }
                    let l = self.icmp(st, IP::Ult, 8, x, y)?;
                    let l = self.boolean(l);
                    r = if self.decide(st, l)? { -1 } else { 1 };
                    break;
                }
                done!(V::c(r as u32 as u64))
            }
            B::Strlen => { let p = args[0].lo; let mut n = 0; loop { let v = self.load(st, p + n, Leaf::Int(8))?; if v.t != 0 { return Err(Stop::Unsup("strlen".into())); } if v.lo == 0 { break; } n += 1; } done!(V::c(n)) }
            B::Syscall => {
                if args[0].lo == 318 { let (p, n) = (args[1].lo, args[2].lo); let _ = st.mem.fill(p, 7, n); done!(V::c(n)) }
                done!(V::c(0))
            }
            B::Getrandom => { let (p, n) = (args[0].lo, args[1].lo); let _ = st.mem.fill(p, 7, n); done!(V::c(n)) }
            B::KeyCreate => { st.tls.push(0); let k = st.tls.len() as u64; self.store(st, args[0].lo, V::c(k), Leaf::Int(32))?; done!(V::c(0)) }
            B::KeyDelete => done!(V::c(0)),
            B::GetSpecific => { let v = st.tls.get((args[0].lo as u32 as usize).wrapping_sub(1)).copied().unwrap_or(0); done!(V::c(v)) }
            B::SetSpecific => { let k = (args[0].lo as u32 as usize).wrapping_sub(1); if k < st.tls.len() { st.tls[k] = args[1].lo; } done!(V::c(0)) }
            B::Write => done!(V::c(args[2].lo)),
            B::Writev => { let mut n = 0; for i in 0..args[2].lo & 0xffff { let l = self.load(st, args[1].lo + 16 * i + 8, Leaf::Int(64))?; n += l.lo; } done!(V::c(n)) }
            B::Getenv => done!(V::c(0)),
            B::Ret0 => done!(V::c(0)),
            B::Errno => { let a = st.mem.malloc(8, 8); done!(V::c(a)) }
            B::M1 => {
                let base = name.strip_prefix("llvm.").unwrap_or(name);
                let fnm = base.split('.').next().unwrap().to_string();
                if ci.ret.lane().1 == Leaf::F32 { return Err(Stop::Unsup("f32 math".into())); }
                let mut out = vec![];
                for a in args { out.push(self.math1(st, &fnm, *a)?); }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::Powi => { let n = self.conc(st, args[1], 32)?; let r = self.powi(st, args[0], sext128(n, 32) as i64)?; done!(r) }
            B::Pow => {
                let n = args.len() / 2;
                let mut out = vec![];
                for i in 0..n { out.push(self.pow(st, args[i], args[n + i])?); }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::Atan2 => {
                let (a, b2) = (args[0], args[1]);
                if a.t == 0 && b2.t == 0 { done!(V::f(f64::from_bits(a.lo).atan2(f64::from_bits(b2.lo)))) }
                let (Some(y), Some(x)) = (self.real(a), self.real(b2)) else { return Err(Stop::Unsup("atan2 nonfinite".into())) };
                let sx = self.sign_of(st, x)?;
                let pi = self.s.func(Fun::Pi, vec![]);
                if sx == 0.0 {
                    let sy = self.sign_of(st, y)?;
                    done!(V::f(if sy == 0.0 { 0.0 } else { sy * std::f64::consts::FRAC_PI_2 }))
                }
                let q = self.s.div(y, x);
                let t = self.s.func(Fun::Atan, vec![q]);
                if sx > 0.0 { let v = self.vreal(t); done!(v) }
                let sy = self.sign_of(st, y)?;
                let r = if sy < 0.0 { self.s.sub(t, pi) } else { self.s.add(t, pi) };
                let v = self.vreal(r);
                done!(v)
            }
            B::Hypot => {
                let p = self.fbin(st, FBin::Mul, args[0], args[0], false)?;
                let q = self.fbin(st, FBin::Mul, args[1], args[1], false)?;
                let r = self.fbin(st, FBin::Add, p, q, false)?;
                let r = self.math1(st, "sqrt", r)?;
                done!(r)
            }
            B::Fma => {
                let n = args.len() / 3;
                let mut out = vec![];
                for i in 0..n {
                    if args[i].t == 0 && args[n + i].t == 0 && args[2 * n + i].t == 0 { // a fused sum that is zero without the single rounding counts as zero
                        let (a, b, c) = (f64::from_bits(args[i].lo), f64::from_bits(args[n + i].lo), f64::from_bits(args[2 * n + i].lo));
                        out.push(V::f(if a * b + c == 0.0 { a * b + c } else { a.mul_add(b, c) }));
                        continue; }
                    let p = self.fbin(st, FBin::Mul, args[i], args[n + i], false)?;
                    out.push(self.fbin(st, FBin::Add, p, args[2 * n + i], false)?);
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::CopySign => {
                let n = args.len() / 2;
                let mut out = vec![];
                for i in 0..n {
                    let (a, c) = (args[i], args[n + i]);
                    if a.t == 0 && c.t == 0 { out.push(V::f(f64::from_bits(a.lo).copysign(f64::from_bits(c.lo)))); continue; }
                    let neg = if c.t == 0 { f64::from_bits(c.lo).is_sign_negative() } else { let t = self.real(c).unwrap(); let l = self.s.rcmp0(RK::Lt, t); self.decide(st, l)? };
                    let m = self.math1(st, "fabs", a)?;
                    out.push(if !neg { m } else if m.t == 0 { V::f(-f64::from_bits(m.lo)) } else { let t = self.s.neg(m.t); self.vreal(t) });
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::MinMax => {
                let max = name.starts_with("llvm.max");
                let prop = name.starts_with("llvm.maximum.") || name.starts_with("llvm.minimum.");
                let n = args.len() / 2;
                let mut out = vec![];
                for i in 0..n {
                    let (a, c) = (args[i], args[n + i]);
                    let nan = |v: V| v.t == 0 && f64::from_bits(v.lo).is_nan();
                    if nan(a) || nan(c) { out.push(if prop || (nan(a) && nan(c)) { V::f(f64::NAN) } else if nan(a) { c } else { a }); continue; }
                    let lt = self.fcmp(FP::Olt, a, c, false)?;
                    let l = if lt.t == 0 { lt.lo == 1 } else { self.decide(st, lt.t)? };
                    out.push(if l == max { c } else { a });
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::FpClass => {
                let m = args[1].lo as u32;
                if args[0].t == 0 {
                    let x = f64::from_bits(args[0].lo);
                    let neg = x.is_sign_negative();
                    use std::num::FpCategory::*;
                    let bit = match x.classify() { Nan => if args[0].lo >> 51 & 1 == 1 { 2 } else { 1 }, Infinite => if neg { 4 } else { 0x200 }, Normal => if neg { 8 } else { 0x100 }, Subnormal => if neg { 16 } else { 0x80 }, Zero => if neg { 32 } else { 0x40 } };
                    done!(V::c((m & bit != 0) as u64))
                }
                // symbolic values are finite; subnormals are identified with normals
                let t = self.real(args[0]).unwrap();
                let (n, z, p) = (m & 8 != 0, m & 0x40 != 0, m & 0x100 != 0);
                let lt = self.s.rcmp0(RK::Lt, t);
                let eq = self.s.rcmp0(RK::Eq, t);
                let zero = self.s.int(0);
                let gt = self.s.rcmp(RK::Lt, zero, t);
                let mut v = vec![];
                if n { v.push(lt) }
                if z { v.push(eq) }
                if p { v.push(gt) }
                let r = if v.len() == 3 { TRUE } else { self.s.or(&v) };
                let r = self.vbool(r);
                done!(r)
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev | B::IAbs => {
                let w = rw(&ci.ret);
                let n = ci.ret.nslots() as usize;
                let mut out = vec![];
                for i in 0..n {
                    let x = self.conc(st, args[i], w)? & mask(w);
                    out.push(V::c128(match b {
                        B::Ctlz => { let mut k = 0; while k < w && x >> (w - 1 - k) & 1 == 0 { k += 1 } k as u128 }
                        B::Cttz => { let mut k = 0; while k < w && x >> k & 1 == 0 { k += 1 } k as u128 }
                        B::Ctpop => x.count_ones() as u128,
                        B::Bswap => { let mut r = 0; for k in 0..w / 8 { r |= ((x >> (8 * k)) & 255) << (w - 8 - 8 * k); } r }
                        B::Bitrev => { let mut r = 0; for k in 0..w { r |= ((x >> k) & 1) << (w - 1 - k); } r }
                        _ => (sext128(x, w).wrapping_abs() as u128) & mask(w),
                    }));
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::Fsh => {
                let w = rw(&ci.ret);
                let n = ci.ret.nslots() as usize;
                let left = name.starts_with("llvm.fshl");
                let mut out = vec![];
                for i in 0..n {
                    let s = (self.conc(st, args[2 * n + i], w)? % w as u128) as u32;
                    let (a, c) = (args[i], args[n + i]);
                    if a.t == 0 && c.t == 0 {
                        let (x, y) = (a.u128() & mask(w), c.u128() & mask(w));
                        let r = if left { if s == 0 { x } else { (x << s) | (y >> (w - s)) } } else if s == 0 { y } else { (x << (w - s)) | (y >> s) };
                        out.push(V::c128(r & mask(w)));
                    } else {
                        let x = self.conc(st, a, w)?;
                        let y = self.conc(st, c, w)?;
                        let r = if left { if s == 0 { x } else { (x << s) | (y >> (w - s)) } } else if s == 0 { y } else { (x << (w - s)) | (y >> s) };
                        out.push(V::c128(r & mask(w)));
                    }
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::IMinMax => {
                let w = rw(&ci.ret);
                let n = ci.ret.nslots() as usize;
                let p = match &name[5..9] { "umax" => IP::Ugt, "umin" => IP::Ult, "smax" => IP::Sgt, _ => IP::Slt };
                let mut out = vec![];
                for i in 0..n {
                    let (a, c) = (args[i], args[n + i]);
                    let q = self.icmp(st, p, w, a, c)?;
                    out.push(self.select(st, q, a, c, Leaf::Int(w))?);
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::ScmpUcmp => {
                let w = ci.args[0].1.lane().1.bits();
                let rw_ = rw(&ci.ret);
                let u = name.starts_with("llvm.ucmp");
                let lt = self.icmp(st, if u { IP::Ult } else { IP::Slt }, w, args[0], args[1])?;
                let lt = self.boolean(lt);
                if self.decide(st, lt)? { done!(V::c(wmask(rw_))) }
                let gt = self.icmp(st, if u { IP::Ugt } else { IP::Sgt }, w, args[0], args[1])?;
                let gt = self.boolean(gt);
                let r = self.decide(st, gt)?;
                done!(V::c(r as u64))
            }
            B::Sat => {
                let w = rw(&ci.ret);
                let n = ci.ret.nslots() as usize;
                let mut out = vec![];
                for i in 0..n {
                    let x = self.conc(st, args[i], w)? & mask(w);
                    let y = self.conc(st, args[n + i], w)? & mask(w);
                    let (a, c) = (sext128(x, w), sext128(y, w));
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let r = if name.contains("uadd") { (x + y).min(mask(w)) } else if name.contains("usub") { x.saturating_sub(y) } else if name.contains("sadd") { (a + c).clamp(lo, hi) as u128 } else if name.contains("ssub") { (a - c).clamp(lo, hi) as u128 } else { return Err(Stop::Unsup(name.clone())) };
                    out.push(V::c128(r & mask(w)));
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::Ovf => {
                let w = ci.args[0].1.lane().1.bits();
                let (a, c) = (args[0], args[1]);
                let signed = name.starts_with("llvm.s");
                let op = if name[6..].starts_with("add") { Bin::Add } else if name[6..].starts_with("sub") { Bin::Sub } else { Bin::Mul };
                if a.t == 0 && c.t == 0 && w <= 64 {
                    let (x, y) = (a.lo & wmask(w), c.lo & wmask(w));
                    let (r, o) = if signed {
                        let (x, y) = (sext128(x as u128, w), sext128(y as u128, w));
                        let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y };
                        (r as u64 & wmask(w), sext128(r as u128, w) != r)
                    } else {
                        let (x, y) = (x as i128, y as i128);
                        let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x.wrapping_mul(y) };
                        let o = match op { Bin::Sub => r < 0, Bin::Add => r >> w != 0, _ => (x as u128 * y as u128) >> w != 0 };
                        (r as u64 & wmask(w), o)
                    };
                    done!(V::c(r), V::c(o as u64))
                }
                if w > 64 { return Err(Stop::Unsup("wide overflow op".into())); }
                let (x, y) = (self.bv(a, w), self.bv(c, w));
                if matches!(self.s.n(x), N::BReal(..)) || matches!(self.s.n(y), N::BReal(..)) {
                    let g = |s: &mut Store, t: T| match *s.n(t) { N::BReal(r, _) => Some(r), N::BConst(w, v) => { let v = if signed { sext128(v, w) } else { v as i128 }; Some(s.int(v)) } _ => None };
                    if let (Some(p), Some(q)) = (g(&mut self.s, x), g(&mut self.s, y)) {
                        let r = match op { Bin::Add => self.s.add(p, q), Bin::Sub => self.s.sub(p, q), _ => self.s.mul(p, q) };
                        let i = self.s.info[r as usize];
                        let m = 2f64.powi(w as i32 - 1);
                        if i.lo >= -m && i.hi < m {
                            let o = if signed { false } else { let l = self.s.rcmp0(RK::Lt, r); self.decide(st, l)? };
                            let rt = self.s.breal(r, w);
                            let rv = self.vbv(rt);
                            done!(rv, V::c(o as u64))
                        }
                    }
                    let (p, q) = (self.concretize(st, x)?, self.concretize(st, y)?);
                    let mut a2 = [V::c128(p), V::c128(q)];
                    a2[0].lo &= wmask(w);
                    a2[1].lo &= wmask(w);
                    return self.builtin(st, B::Ovf as u32, fi, ci, &a2);
                }
                if op == Bin::Mul && self.s.bval(x).is_none() && self.s.bval(y).is_none() { let p = self.concretize(st, x)?; let q = self.concretize(st, y)?; return self.builtin(st, B::Ovf as u32, fi, ci, &[V::c128(p), V::c128(q)]); }
                let ww = if op == Bin::Mul { 2 * w } else { w + 1 };
                let (xe, ye) = if signed { (self.s.sext(x, ww), self.s.sext(y, ww)) } else { (self.s.zext(x, ww), self.s.zext(y, ww)) };
                let r = self.s.bbin(bbop(op), xe, ye);
                let lowr = self.s.extract(r, w - 1, 0);
                let back = if signed { self.s.sext(lowr, ww) } else { self.s.zext(lowr, ww) };
                let e = self.s.bcmp(BC::Eq, r, back);
                let o = self.s.not(e);
                let (rv, ov) = (self.vbv(lowr), self.vbool(o));
                done!(rv, ov)
            }
            B::FToISat => {
                let signed = name.contains("fptosi");
                let w = rw(&ci.ret);
                let n = ci.ret.nslots() as usize;
                let f32_ = ci.args[0].1.lane().1 == Leaf::F32;
                let mut out = vec![];
                for i in 0..n {
                    let v = args[i];
                    if v.t == 0 {
                        let f = if f32_ { f32::from_bits(v.lo as u32) as f64 } else { f64::from_bits(v.lo) };
                        let r = if f.is_nan() { 0 } else if signed { let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); (f as i128).clamp(lo, hi) as u128 } else { (f as u128).min(mask(w)) };
                        out.push(V::c128(r & mask(w)));
                    } else { out.push(self.to_int(st, v, w, signed)?); }
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::IsConst => done!(V::c(0)),
            B::Expect | B::TlsAddr => done!(args[0]),
            B::ObjSize => done!(V::c(u64::MAX)),
            B::Trap => Err(Stop::Panic(format!("trap in {}", self.trace(st)))),
            B::Pause => void!(),
            B::CmpPd => {
                let k = args[4].lo & 7;
                let mut out = vec![];
                for i in 0..2 {
                    let p = match k { 0 => FP::Oeq, 1 => FP::Olt, 2 => FP::Ole, 3 => FP::Uno, 4 => FP::Une, 5 => FP::Uge, 6 => FP::Ugt, _ => FP::Ord };
                    let v = self.fcmp(p, args[i], args[2 + i], false)?;
                    let t = if v.t == 0 { v.lo != 0 } else { self.decide(st, v.t)? };
                    out.push(V::c(if t { u64::MAX } else { 0 }));
                }
                self.finish(st, ci, &out);
                Ok(())
            }
            B::Wide => {
                let f = WIDE.iter().find(|w| name.ends_with(w.0)).unwrap().1;
                let (ret, a) = (args[0].lo, args[1].lo);
                for i in 0..4u64 {
                    let x = self.load(st, a + 8 * i, Leaf::F64)?;
                    let v = if f == "pow" { let y = self.load(st, args[2].lo + 8 * i, Leaf::F64)?; self.pow(st, x, y)? } else { self.math1(st, f, x)? };
                    self.store(st, ret + 8 * i, v, Leaf::F64)?;
                }
                void!()
            }
            B::Reduce => {
                let r = &name["llvm.vector.reduce.".len()..];
                let kind = r.split('.').next().unwrap();
                if kind == "fadd" || kind == "fmul" {
                    let mut acc = args[0];
                    for v in &args[1..] { acc = self.fbin(st, if kind == "fadd" { FBin::Add } else { FBin::Mul }, acc, *v, false)?; }
                    done!(acc)
                }
                let w = rw(&ci.ret);
                let mut acc = args[0];
                for v in &args[1..] {
                    acc = match kind {
                        "add" => self.bin(st, Bin::Add, w, acc, *v)?, "mul" => self.bin(st, Bin::Mul, w, acc, *v)?, "and" => self.bin(st, Bin::And, w, acc, *v)?, "or" => self.bin(st, Bin::Or, w, acc, *v)?, "xor" => self.bin(st, Bin::Xor, w, acc, *v)?,
                        "umax" | "umin" | "smax" | "smin" => { let p = match kind { "umax" => IP::Ugt, "umin" => IP::Ult, "smax" => IP::Sgt, _ => IP::Slt }; let q = self.icmp(st, p, w, acc, *v)?; self.select(st, q, acc, *v, Leaf::Int(w))? }
                        _ => return Err(Stop::Unsup(name.clone())),
                    };
                }
                done!(acc)
            }
            _ => Err(Stop::Unsup(format!("extern {}", name))),
        }
    }
}
