//! The symbolic interpreter.
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::collections::HashMap;

pub fn wmask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Exec {
    #[inline(always)]
    pub fn get(st: &State, f: &Func, base: u32, o: Op, k: u32) -> V {
        if o & CBIT != 0 { let c = f.consts[((o & !CBIT) + k) as usize]; V { lo: c as u64, hi: (c >> 64) as u64, t: 0 } } else { st.regs[(base + o + k) as usize] }
    }
    pub fn func(&mut self, i: usize) -> &'static Func {
        if let Some(f) = self.fptr[i] { return f; }
        let a = self.m.func(i);
        // module bodies live for the whole run
        let p: &'static Func = unsafe { &*std::sync::Arc::as_ptr(&a) };
        self.fptr[i] = Some(p);
        p
    }
    pub fn addr(&mut self, st: &mut State, v: V) -> X<u64> {
        if v.t == 0 { return Ok(v.lo); }
        Ok(self.concretize(st, v.t)? as u64)
    }
    pub fn conc(&mut self, st: &mut State, v: V, w: u32) -> X<u128> {
        if v.t == 0 { return Ok(v.u128()); }
        let t = self.bv(v, w);
        self.concretize(st, t)
    }
    pub fn bug<A>(&self, st: &State, what: &str, a: u64) -> X<A> {
        { if std::env::var("SYMX_V").is_ok() { if let Some(f) = st.frames.last() { eprintln!("BUG {} {:#x} {:?}", what, a, f.f.code.get(f.pc as usize)); } } Err(Stop::Bug(format!("{} at {:#x} in {}", what, a, self.trace(st)))) }
    }
    pub fn trace(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().rev().take(8).map(|f| f.f.name.clone()).collect();
        for x in v.iter_mut() { *x = short_name(x); }
        v.join(" < ")
    }
    pub fn load(&mut self, st: &mut State, a: u64, leaf: Leaf) -> X<V> {
        let n = leaf.bytes();
        let mut sym = None;
        let raw = match st.mem.read(a, n, &mut sym) { Ok(v) => v, Err(x) => return self.bug(st, &format!("invalid read of {} bytes", n), x) };
        let bits = leaf.bits();
        let Some(sy) = sym else {
            if leaf == Leaf::F64 && raw as u64 == crate::mem::POISON && st.mem.poison { return self.bug(st, "read of a float that was never written", a); }
            let v = if bits % 8 != 0 { raw & mask(bits) } else { raw };
            return Ok(V::c128(v));
        };
        // whole symbolic value
        let t0 = sy[0].0;
        if t0 != 0 && (0..n as usize).all(|i| sy[i] == (t0, i as u8)) {
            match self.s.sort(t0) {
                Sort::Real => { if n == 8 { return Ok(match leaf { Leaf::F64 => V { lo: 0, hi: 0, t: t0 }, _ => { let t = self.s.fbits(t0); self.vbv(t) } }); } }
                Sort::Bool => return Ok(if bits == 1 { V { lo: 0, hi: 0, t: t0 } } else if n == 1 { let t = self.bv(V { lo: 0, hi: 0, t: t0 }, bits); self.vbv(t) } else { V::c(0) }),
                Sort::Bv(w) => {
                    if let (N::FBits(x), Leaf::F64) = (self.s.n(t0).clone(), leaf) { return Ok(V { lo: 0, hi: 0, t: x }); }
                    if w == bits { return Ok(V { lo: 0, hi: 0, t: t0 }); }
                    if w > bits { let e = self.s.extract(t0, bits - 1, 0); return Ok(self.norm(e, bits)); }
                }
                _ => {}
            }
        }
        // assemble byte-wise
        let mut acc: Option<T> = None;
        for i in 0..n as usize {
            let b = if sy[i].0 == 0 { self.s.bconst(8, (raw >> (8 * i)) & 255) } else {
                let (t, k) = sy[i];
                let tv = match self.s.sort(t) {
                    Sort::Real => { let b = self.bits_of(st, t)?; self.s.bconst(64, b as u128) }
                    Sort::Bool => self.bv(V { lo: 0, hi: 0, t }, 8),
                    _ => if let N::FBits(x) = *self.s.n(t) { let b = self.bits_of(st, x)?; self.s.bconst(64, b as u128) } else { t },
                };
                let w = self.s.bw(tv);
                let lo = 8 * k as u32;
                if lo >= w { self.s.bconst(8, 0) } else { let hi = (lo + 7).min(w - 1); let e = self.s.extract(tv, hi, lo); self.s.zext(e, 8) }
            };
            acc = Some(match acc { None => b, Some(a) => self.s.concat(b, a) });
        }
        let mut t = acc.unwrap();
        if bits % 8 != 0 { t = self.s.extract(t, bits - 1, 0); }
        if leaf == Leaf::F64 {
            let v = self.concretize(st, t)?;
            return Ok(V::c128(v));
        }
        Ok(self.norm(t, bits))
    }
    /// one-bit vectors are booleans
    pub fn norm(&mut self, t: T, w: u32) -> V {
        if w == 1 {
            if let Sort::Bv(_) = self.s.sort(t) { let one = self.s.bconst(1, 1); let b = self.s.bcmp(BC::Eq, t, one); return self.vbool(b); }
            return self.vbool(t);
        }
        self.vbv(t)
    }
    pub fn store(&mut self, st: &mut State, a: u64, v: V, leaf: Leaf) -> X<()> {
        let n = leaf.bytes();
        let r = if v.t == 0 {
            let x = if leaf.bits() == 1 { v.lo as u128 & 1 } else { v.u128() };
            st.mem.write(a, n, x)
        } else {
            let mut t = v.t;
            if let N::FBits(x) = *self.s.n(t) { t = x; }
            st.mem.write_sym(a, n, t)
        };
        match r { Ok(()) => Ok(()), Err(x) => self.bug(st, &format!("invalid write of {} bytes", n), x) }
    }
    pub fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: V, b: V) -> X<V> {
        if a.t == 0 && b.t == 0 {
            if w <= 64 {
                let m = wmask(w);
                let (x, y) = (a.lo & m, b.lo & m);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::AShr => (sx(x, w) >> y.min(63).min(w as u64 - 1)) as u64,
                    _ => {
                        if y == 0 { return Err(Stop::Bug(format!("integer division by zero in {}", self.trace(st)))); }
                        match op { Bin::UDiv => x / y, Bin::URem => x % y, Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64, _ => sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                    }
                };
                return Ok(V::c(r & m));
            }
            let bb = bbop(op);
            match eval_bb(bb, w, a.u128(), b.u128()) { Some(v) => return Ok(V::c128(v)), None => return Err(Stop::Bug(format!("integer division by zero in {}", self.trace(st)))) }
        }
        // booleans
        if w == 1 {
            let (x, y) = (self.boolean(a), self.boolean(b));
            let r = match op {
                Bin::And | Bin::Mul => self.s.and(&[x, y]),
                Bin::Or => self.s.or(&[x, y]),
                Bin::Xor | Bin::Add | Bin::Sub => self.s.xor(x, y),
                _ => return Err(Stop::Unsup("bool op".into())),
            };
            return Ok(self.vbool(r));
        }
        // float bits
        let fa = self.fb(a);
        let fb_ = self.fb(b);
        if w == 64 && (fa.is_some() || fb_.is_some()) {
            let (x, k, other_c) = match (fa, fb_) { (Some(x), None) => (x, b.lo, b.t == 0), (None, Some(x)) => (x, a.lo, a.t == 0), (Some(x), Some(_)) => (x, 0, false), _ => unreachable!() };
            if other_c {
                match (op, k) {
                    (Bin::Xor, 0x8000_0000_0000_0000) => { let n = self.s.neg(x); let t = self.s.fbits(n); return Ok(self.vbv(t)); }
                    (Bin::And, 0x7fff_ffff_ffff_ffff) => { let n = self.s.abs(x); let t = self.s.fbits(n); return Ok(self.vbv(t)); }
                    (Bin::And, 0x8000_0000_0000_0000) => { let c = self.s.rcmp0(RK::Lt, x); return Ok(V::c(if self.decide(st, c)? { k } else { 0 })); }
                    (Bin::LShr, 63) | (Bin::AShr, 63) if fa.is_some() => { let c = self.s.rcmp0(RK::Lt, x); let n = self.decide(st, c)?; return Ok(V::c(if n { if op == Bin::AShr { u64::MAX } else { 1 } } else { 0 })); }
                    (Bin::Xor, 0x7fff_ffff_ffff_ffff) => { let c = self.s.rcmp0(RK::Lt, x); if self.decide(st, c)? { return Ok(if fa.is_some() { a } else { b }); } }
                    (Bin::Xor | Bin::Or, 0) => return Ok(if fa.is_some() { a } else { b }),
                    _ => {}
                }
            }
            let a2 = if let Some(x) = fa { V::c(self.bits_of(st, x)?) } else { a };
            let b2 = if let Some(x) = fb_ { V::c(self.bits_of(st, x)?) } else { b };
            return self.bin(st, op, w, a2, b2);
        }
        let (mut x, mut y) = (self.bv(a, w), self.bv(b, w));
        match op {
            Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem => {
                if let Some(v) = self.s.bval(y) { if v == 0 { return Err(Stop::Bug(format!("integer division by zero in {}", self.trace(st)))); } } else { let v = self.concretize(st, y)?; y = self.s.bconst(w, v); }
                if matches!(self.s.n(x), N::BReal(..)) { let v = self.concretize(st, x)?; x = self.s.bconst(w, v); }
            }
            Bin::Mul => {
                let sm = |s: &Store, t: T| s.bval(t).map(|v| v < (1 << 20)).unwrap_or(false);
                let br = matches!(self.s.n(x), N::BReal(..)) || matches!(self.s.n(y), N::BReal(..));
                if !br && !(sm(&self.s, x) || sm(&self.s, y)) {
                    if self.s.bval(x).is_none() { let v = self.concretize(st, x)?; x = self.s.bconst(w, v); }
                    if self.s.bval(y).is_none() { let v = self.concretize(st, y)?; y = self.s.bconst(w, v); }
                }
            }
            Bin::Shl | Bin::LShr | Bin::AShr => if self.s.bval(y).is_none() { let v = self.concretize(st, y)?; y = self.s.bconst(w, v); },
            _ => {}
        }
        let t = self.s.bbin(bbop(op), x, y);
        // integer-valued reals that fell out of the supported operations
        if let N::BBin(_, p, q) = *self.s.n(t) {
            for z in [p, q] {
                if matches!(self.s.n(z), N::BReal(..)) {
                    let v1 = self.concretize(st, x)?;
                    let v2 = self.concretize(st, y)?;
                    return self.bin(st, op, w, V::c128(v1), V::c128(v2));
                }
            }
        }
        Ok(self.vbv(t))
    }
    pub fn fb(&self, v: V) -> Option<T> {
        if v.t == 0 { return None; }
        match *self.s.n(v.t) { N::FBits(x) => Some(x), _ => if self.s.sort(v.t) == Sort::Real { Some(v.t) } else { None } }
    }
    pub fn icmp(&mut self, st: &mut State, p: IP, w: u32, a: V, b: V) -> X<V> {
        if a.t == 0 && b.t == 0 {
            if w <= 64 {
                let m = wmask(w);
                let (x, y) = (a.lo & m, b.lo & m);
                let r = match p {
                    IP::Eq => x == y, IP::Ne => x != y, IP::Ult => x < y, IP::Ule => x <= y, IP::Ugt => x > y, IP::Uge => x >= y,
                    IP::Slt => sx(x, w) < sx(y, w), IP::Sle => sx(x, w) <= sx(y, w), IP::Sgt => sx(x, w) > sx(y, w), IP::Sge => sx(x, w) >= sx(y, w),
                };
                return Ok(V::c(r as u64));
            }
            let (x, y) = (a.u128() & mask(w), b.u128() & mask(w));
            let (sx_, sy) = (sext128(x, w), sext128(y, w));
            let r = match p {
                IP::Eq => x == y, IP::Ne => x != y, IP::Ult => x < y, IP::Ule => x <= y, IP::Ugt => x > y, IP::Uge => x >= y,
                IP::Slt => sx_ < sy, IP::Sle => sx_ <= sy, IP::Sgt => sx_ > sy, IP::Sge => sx_ >= sy,
            };
            return Ok(V::c(r as u64));
        }
        if w == 1 {
            let (x, y) = (self.boolean(a), self.boolean(b));
            let nx = self.s.not(x);
            let ny = self.s.not(y);
            let t = match p {
                IP::Eq => { let z = self.s.xor(x, y); self.s.not(z) }
                IP::Ne => self.s.xor(x, y),
                IP::Ult | IP::Sgt => self.s.and(&[nx, y]),
                IP::Ugt | IP::Slt => self.s.and(&[x, ny]),
                IP::Ule | IP::Sge => self.s.or(&[nx, y]),
                IP::Uge | IP::Sle => self.s.or(&[x, ny]),
            };
            return Ok(self.vbool(t));
        }
        let (fa, fb_) = (self.fb(a), self.fb(b));
        if w == 64 && (fa.is_some() || fb_.is_some()) {
            let cval = |v: V, signed: bool| -> f64 { let mut x = v.lo; if signed && (x as i64) < 0 { x ^= 0x7fff_ffff_ffff_ffff; } f64::from_bits(x) };
            let signed = matches!(p, IP::Slt | IP::Sle | IP::Sgt | IP::Sge);
            let eq = matches!(p, IP::Eq | IP::Ne);
            // ordering against a constant; non-finite constants bound every real
            let side = |me: &mut Exec, v: V, f: Option<T>| -> Result<T, f64> {
                if let Some(x) = f { return Ok(x); }
                let c = if signed { cval(v, true) } else { f64::from_bits(v.lo) };
                if c.is_finite() && (v.lo != 1 << 63) { Ok(me.from_f64(c)) } else { Err(if v.lo == 1 << 63 { -0.0 } else { c }) }
            };
            let other_sym_bv = (fa.is_none() && a.t != 0) || (fb_.is_none() && b.t != 0);
            if !other_sym_bv {
                let (x, y) = (side(self, a, fa), side(self, b, fb_));
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        let unsigned_ok = eq || signed || {
                            let z = self.s.int(0);
                            let c1 = self.s.rcmp(RK::Le, z, x);
                            let c2 = self.s.rcmp(RK::Le, z, y);
                            self.decide(st, c1)? && self.decide(st, c2)?
                        };
                        if unsigned_ok {
                            let t = match p {
                                IP::Eq => self.s.rcmp(RK::Eq, x, y),
                                IP::Ne => { let e = self.s.rcmp(RK::Eq, x, y); self.s.not(e) }
                                IP::Slt | IP::Ult => self.s.rcmp(RK::Lt, x, y),
                                IP::Sle | IP::Ule => self.s.rcmp(RK::Le, x, y),
                                IP::Sgt | IP::Ugt => self.s.rcmp(RK::Lt, y, x),
                                IP::Sge | IP::Uge => self.s.rcmp(RK::Le, y, x),
                            };
                            return Ok(self.vbool(t));
                        }
                    }
                    (Ok(x), Err(c)) | (Err(c), Ok(x)) => {
                        let left = fa.is_some();
                        if eq { return Ok(V::c((p == IP::Ne) as u64)); }
                        if c == 0.0 {
                            // sign bit constant
                            let z = self.s.int(0);
                            let neg = self.s.rcmp(RK::Lt, x, z);
                            let t = match (p, left) { (IP::Sgt, true) | (IP::Slt, false) => { self.s.not(neg) } (IP::Slt, true) | (IP::Sgt, false) => FALSE, (IP::Ult, true) | (IP::Ugt, false) => self.s.not(neg), _ => return Err(Stop::Unsup("float bits vs sign constant".into())) };
                            return Ok(self.vbool(t));
                        }
                        let ge = if signed { c > 0.0 || (c.is_nan() && cval(if left { b } else { a }, true).is_sign_positive()) } else { true };
                        // bits(x) < const (when ge) ; unsigned needs x >= 0
                        if !signed { let z = self.s.int(0); let nn = self.s.rcmp(RK::Le, z, x); let positive_const = (if left { b.lo } else { a.lo }) >> 63 == 0; let d = self.decide(st, nn)?; if d != positive_const && !d { return Ok(V::c(matches!((p, left), (IP::Ugt | IP::Uge, true) | (IP::Ult | IP::Ule, false)) as u64)); } if !d { return Err(Stop::Unsup("negative float bits vs non-finite".into())); } }
                        let x_lt = ge;
                        let r = match (p, left) { (IP::Slt | IP::Sle | IP::Ult | IP::Ule, true) | (IP::Sgt | IP::Sge | IP::Ugt | IP::Uge, false) => x_lt, _ => !x_lt };
                        return Ok(V::c(r as u64));
                    }
                    _ => {}
                }
            }
            let a2 = if let Some(x) = fa { V::c(self.bits_of(st, x)?) } else { a };
            let b2 = if let Some(x) = fb_ { V::c(self.bits_of(st, x)?) } else { b };
            return self.icmp(st, p, w, a2, b2);
        }
        let (x, y) = (self.bv(a, w), self.bv(b, w));
        let t = match p {
            IP::Eq => self.s.bcmp(BC::Eq, x, y),
            IP::Ne => { let e = self.s.bcmp(BC::Eq, x, y); self.s.not(e) }
            IP::Ult => self.s.bcmp(BC::Ult, x, y),
            IP::Ule => self.s.bcmp(BC::Ule, x, y),
            IP::Ugt => self.s.bcmp(BC::Ult, y, x),
            IP::Uge => self.s.bcmp(BC::Ule, y, x),
            IP::Slt => self.s.bcmp(BC::Slt, x, y),
            IP::Sle => self.s.bcmp(BC::Sle, x, y),
            IP::Sgt => self.s.bcmp(BC::Slt, y, x),
            IP::Sge => self.s.bcmp(BC::Sle, y, x),
        };
        Ok(self.vbool(t))
    }
    pub fn fcmp(&mut self, p: FP, a: V, b: V, f32_: bool) -> X<V> {
        let cc = |x: f64, y: f64| -> bool {
            let un = x.is_nan() || y.is_nan();
            match p {
                FP::False => false, FP::True => true, FP::Ord => !un, FP::Uno => un,
                FP::Oeq => x == y, FP::Ogt => x > y, FP::Oge => x >= y, FP::Olt => x < y, FP::Ole => x <= y, FP::One => !un && x != y,
                FP::Ueq => un || x == y, FP::Ugt => un || x > y, FP::Uge => un || x >= y, FP::Ult => un || x < y, FP::Ule => un || x <= y, FP::Une => x != y,
            }
        };
        if a.t == 0 && b.t == 0 {
            let (x, y) = if f32_ { (f32::from_bits(a.lo as u32) as f64, f32::from_bits(b.lo as u32) as f64) } else { (f64::from_bits(a.lo), f64::from_bits(b.lo)) };
            return Ok(V::c(cc(x, y) as u64));
        }
        if f32_ { return Err(Stop::Unsup("symbolic f32".into())); }
        match (self.real(a), self.real(b)) {
            (Some(x), Some(y)) => {
                let t = match p {
                    FP::False | FP::Uno => FALSE,
                    FP::True | FP::Ord => TRUE,
                    FP::Oeq | FP::Ueq => self.s.rcmp(RK::Eq, x, y),
                    FP::One | FP::Une => { let e = self.s.rcmp(RK::Eq, x, y); self.s.not(e) }
                    FP::Ogt | FP::Ugt => self.s.rcmp(RK::Lt, y, x),
                    FP::Oge | FP::Uge => self.s.rcmp(RK::Le, y, x),
                    FP::Olt | FP::Ult => self.s.rcmp(RK::Lt, x, y),
                    FP::Ole | FP::Ule => self.s.rcmp(RK::Le, x, y),
                };
                Ok(self.vbool(t))
            }
            (None, _) => Ok(V::c(cc(f64::from_bits(a.lo), 1.0) as u64)),
            (_, None) => Ok(V::c(cc(1.0, f64::from_bits(b.lo)) as u64)),
        }
    }
    /// a selection over real inputs is decided on the path before it is used in arithmetic
    pub fn force_ite(&mut self, st: &mut State, v: V) -> X<V> {
        if v.t == 0 || self.s.dep(v.t) & D_REAL == 0 || self.s.sort(v.t) != Sort::Real { return Ok(v); }
        let (_, ts) = self.s.parts(v.t);
        if ts.len() != 1 { return Ok(v); }
        let N::Mono(f) = self.s.n(ts[0].0).clone() else { return Ok(v) };
        if f.len() != 1 { return Ok(v); }
        let N::RIte(c, a, b) = *self.s.n(f[0].0) else { return Ok(v) };
        if self.s.dep(c) & D_REAL == 0 { return Ok(v); }
        let d = self.decide(st, c)?;
        if f[0].1 != 1 { return Ok(v); }
        let x = if d { a } else { b };
        let sc = self.s.scale(x, ts[0].1);
        let (k, _) = self.s.parts(v.t);
        let kt = self.s.rat(k);
        let t = self.s.add(sc, kt);
        Ok(self.vreal(t))
    }
    pub fn fbin(&mut self, st: &mut State, op: FBin, a: V, b: V, f32_: bool) -> X<V> {
        if a.t == 0 && b.t == 0 {
            if f32_ {
                let (x, y) = (f32::from_bits(a.lo as u32), f32::from_bits(b.lo as u32));
                let r = match op { FBin::Add => x + y, FBin::Sub => x - y, FBin::Mul => x * y, FBin::Div => x / y, FBin::Rem => x % y };
                return Ok(V::c(r.to_bits() as u64));
            }
            let (x, y) = (f64::from_bits(a.lo), f64::from_bits(b.lo));
            let r = match op { FBin::Add => x + y, FBin::Sub => x - y, FBin::Mul => x * y, FBin::Div => x / y, FBin::Rem => x % y };
            return Ok(V::f(r));
        }
        if f32_ { return Err(Stop::Unsup("symbolic f32".into())); }
        let (a, b) = (self.force_ite(st, a)?, self.force_ite(st, b)?);
        let (x, y) = match (self.real(a), self.real(b)) {
            (Some(x), Some(y)) => (x, y),
            (ra, rb) => {
                // one operand is concrete inf/nan
                let (c, left) = if ra.is_none() { (f64::from_bits(a.lo), true) } else { (f64::from_bits(b.lo), false) };
                let other = if left { rb.unwrap() } else { ra.unwrap() };
                if c.is_nan() { return Ok(V::f(f64::NAN)); }
                return Ok(V::f(match op {
                    FBin::Add => c,
                    FBin::Sub => if left { c } else { -c },
                    FBin::Mul => c * self.sign_of(st, other)?,
                    FBin::Div => if left { let s = self.sign_of(st, other)?; c * if s == 0.0 { 1.0 } else { s } } else { 0.0 },
                    FBin::Rem => if left { f64::NAN } else { return Ok(a) },
                }));
            }
        };
        let t = match op {
            FBin::Add => self.s.add(x, y),
            FBin::Sub => self.s.sub(x, y),
            FBin::Mul => self.s.mul(x, y),
            FBin::Div => {
                let z = self.s.rcmp0(RK::Eq, y);
                if self.decide(st, z)? {
                    let s = self.sign_of(st, x)?;
                    return Ok(V::f(s / 0.0));
                }
                self.s.div(x, y)
            }
            FBin::Rem => {
                let z = self.s.rcmp0(RK::Eq, y);
                if self.decide(st, z)? { return Ok(V::f(f64::NAN)); }
                let q = self.s.div(x, y);
                let q = self.trunc(st, q)?;
                let p = self.s.mul(q, y);
                self.s.sub(x, p)
            }
        };
        self.ovf_check()?;
        Ok(self.vreal(t))
    }
    pub fn ovf_check(&self) -> X<()> {
        if OVERFLOW.with(|o| o.get()) { OVERFLOW.with(|o| o.set(false)); return Err(Stop::Unsup("rational overflow".into())); }
        Ok(())
    }
    /// -1, 0 or 1
    pub fn sign_of(&mut self, st: &mut State, t: T) -> X<f64> {
        let e = self.s.rcmp0(RK::Eq, t);
        if self.decide(st, e)? { return Ok(0.0); }
        let l = self.s.rcmp0(RK::Lt, t);
        Ok(if self.decide(st, l)? { -1.0 } else { 1.0 })
    }
    pub fn trunc(&mut self, st: &mut State, t: T) -> X<T> {
        if self.s.info[t as usize].int { return Ok(t); }
        if self.s.dep(t) & (D_REAL | D_FN | D_BV) == 0 {
            let i = self.s.info[t as usize];
            if i.hi - i.lo <= 64.0 {
                // bounded coefficient expression: decide the integer part
                let neg = self.s.rcmp0(RK::Lt, t);
                let neg = self.decide(st, neg)?;
                let u = if neg { self.s.neg(t) } else { t };
                let mut k = 0i128;
                loop {
                    let kk = self.s.int(k + 1);
                    let c = self.s.rcmp(RK::Lt, u, kk);
                    if self.decide(st, c)? { break; }
                    k += 1;
                    if k > 70 { return Err(Stop::Unsup("trunc range".into())); }
                }
                return Ok(self.s.int(if neg { -k } else { k }));
            }
        }
        Ok(self.s.func(Fun::Trunc, vec![t]))
    }
    pub fn to_int(&mut self, st: &mut State, v: V, w: u32, signed: bool) -> X<V> {
        let t = self.real(v).unwrap();
        let t = self.trunc(st, t)?;
        if let Some(c) = self.s.as_const(t) {
            let x = c.n;
            let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
            return Ok(V::c128((x.clamp(lo, hi) as u128) & mask(w)));
        }
        let i = self.s.info[t as usize];
        let m = 2f64.powi(w as i32 - 1);
        if !signed {
            let neg = self.s.rcmp0(RK::Lt, t);
            if self.decide(st, neg)? { return Ok(V::c(0)); }
        }
        if i.lo >= -m && i.hi < m { let b = self.s.breal(t, w); return Ok(self.vbv(b)); }
        Err(Stop::Unsup(format!("float to int of unbounded {}", self.s.show(t).chars().take(100).collect::<String>())))
    }
    pub fn select(&mut self, st: &mut State, c: V, a: V, b: V, leaf: Leaf) -> X<V> {
        if c.t == 0 { return Ok(if c.lo & 1 == 1 { a } else { b }); }
        if a.t == b.t && a.lo == b.lo && a.hi == b.hi { return Ok(a); }
        let ct = self.boolean(c);
        if let Some(&k) = st.known.get(&ct) { return Ok(if k { a } else { b }); }
        match leaf {
            Leaf::Int(1) => {
                let (x, y) = (self.boolean(a), self.boolean(b));
                let nc = self.s.not(ct);
                let p = self.s.and(&[ct, x]);
                let q = self.s.and(&[nc, y]);
                let t = self.s.or(&[p, q]);
                Ok(self.vbool(t))
            }
            Leaf::Int(w) if w <= 64 && self.fb(a).is_none() && self.fb(b).is_none() && self.s.dep(ct) & (D_COEF | D_REAL | D_FN) == 0 => {
                let (x, y) = (self.bv(a, w), self.bv(b, w));
                let t = self.s.bite(ct, x, y);
                Ok(self.vbv(t))
            }
            Leaf::F64 => {
                match (self.real(a), self.real(b)) {
                    (Some(x), Some(y)) if self.s.dep(ct) & D_REAL != 0 || true => {
                        // keep numeric selections as terms only when the condition does not mention path-relevant booleans
                        let _ = (x, y);
                        let d = self.decide(st, ct)?;
                        Ok(if d { a } else { b })
                    }
                    _ => Ok(if self.decide(st, ct)? { a } else { b }),
                }
            }
            _ => Ok(if self.decide(st, ct)? { a } else { b }),
        }
    }
    pub fn cast1(&mut self, st: &mut State, op: CastOp, from: Leaf, to: Leaf, v: V) -> X<V> {
        let (fw, tw) = (from.bits(), to.bits());
        match op {
            CastOp::Trunc => {
                if v.t == 0 { return Ok(V::c128(v.u128() & mask(tw))); }
                if let Some(x) = self.fb(v) { let b = self.bits_of(st, x)?; return Ok(V::c128(b as u128 & mask(tw))); }
                let b = self.bv(v, fw);
                if tw == 1 { let e = self.s.extract(b, 0, 0); return Ok(self.norm(e, 1)); }
                let e = self.s.extract(b, tw - 1, 0);
                if let N::BExt(x, _, _) = *self.s.n(e) { if matches!(self.s.n(x), N::BReal(..)) { let c = self.concretize(st, x)?; return Ok(V::c128(c & mask(tw))); } }
                Ok(self.norm(e, tw))
            }
            CastOp::Zext => {
                if v.t == 0 { return Ok(V::c128(v.u128() & mask(fw))); }
                if let Some(x) = self.fb(v) { let b = self.bits_of(st, x)?; return Ok(V::c(b)); }
                let b = self.bv(v, fw);
                let t = self.s.zext(b, tw);
                if let N::BZext(x, _) = *self.s.n(t) { if matches!(self.s.n(x), N::BReal(..)) { let c = self.concretize(st, x)?; return Ok(V::c128(c)); } }
                Ok(self.vbv(t))
            }
            CastOp::Sext => {
                if v.t == 0 { return Ok(V::c128(sext128(v.u128(), fw) as u128 & mask(tw))); }
                if fw == 1 { let c = self.boolean(v); let (a, b) = (self.s.bconst(tw, u128::MAX), self.s.bconst(tw, 0)); let t = self.s.bite(c, a, b); return Ok(self.vbv(t)); }
                let b = self.bv(v, fw);
                let t = self.s.sext(b, tw);
                if let N::BSext(x, _) = *self.s.n(t) { if matches!(self.s.n(x), N::BReal(..)) { let c = self.concretize(st, x)?; return Ok(V::c128(sext128(c, fw) as u128 & mask(tw))); } }
                Ok(self.vbv(t))
            }
            CastOp::FpToSi | CastOp::FpToUi => {
                if v.t == 0 {
                    let f = if from == Leaf::F32 { f32::from_bits(v.lo as u32) as f64 } else { f64::from_bits(v.lo) };
                    let x = if op == CastOp::FpToSi { f as i128 as u128 } else { f as u128 };
                    return Ok(V::c128(x & mask(tw)));
                }
                self.to_int(st, v, tw, op == CastOp::FpToSi)
            }
            CastOp::SiToFp | CastOp::UiToFp => {
                if v.t == 0 {
                    let x = v.u128() & mask(fw);
                    let f = if op == CastOp::SiToFp { sext128(x, fw) as f64 } else { x as f64 };
                    if to == Leaf::F32 { return Ok(V::c(((if op == CastOp::SiToFp { sext128(x, fw) as f32 } else { x as f32 }).to_bits()) as u64)); }
                    return Ok(V::f(f));
                }
                if to == Leaf::F32 { return Err(Stop::Unsup("symbolic f32".into())); }
                let b = self.bv(v, fw);
                if let N::BReal(t, _) = *self.s.n(b) {
                    if op == CastOp::SiToFp || self.s.info[t as usize].lo >= 0.0 { return Ok(self.vreal(t)); }
                }
                if op == CastOp::UiToFp { let t = self.s.rbv(b); return Ok(self.vreal(t)); }
                if let N::BZext(x, _) = *self.s.n(b) { let t = self.s.rbv(x); return Ok(self.vreal(t)); }
                let c = self.concretize(st, b)?;
                Ok(V::f(sext128(c, fw) as f64))
            }
            CastOp::FpTrunc => { if v.t != 0 { return Err(Stop::Unsup("symbolic f32".into())); } Ok(V::c((f64::from_bits(v.lo) as f32).to_bits() as u64)) }
            CastOp::FpExt => { if v.t != 0 { return Err(Stop::Unsup("symbolic f32".into())); } Ok(V::f(f32::from_bits(v.lo as u32) as f64)) }
            CastOp::PtrInt | CastOp::Bitcast => {
                if v.t == 0 { return Ok(if tw < 64 { V::c(v.lo & wmask(tw)) } else { v }); }
                if to == Leaf::F64 {
                    return match *self.s.n(v.t) { N::FBits(x) => Ok(V { lo: 0, hi: 0, t: x }), _ if self.s.sort(v.t) == Sort::Real => Ok(v), _ => { let c = self.concretize(st, v.t)?; Ok(V::c128(c)) } };
                }
                if from == Leaf::F64 && to != Leaf::F64 { let t = self.s.fbits(v.t); return Ok(self.vbv(t)); }
                Ok(v)
            }
        }
    }
    fn goto(&mut self, st: &mut State, e: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f;
        let base = fr.base;
        let ed = &f.edges[e as usize];
        fr.pc = ed.pc;
        match ed.moves.len() {
            0 => {}
            1 => { let (d, o) = ed.moves[0]; st.regs[(base + d) as usize] = Self::get(st, f, base, o, 0); }
            _ => {
                let mut tmp: [V; 16] = [V::default(); 16];
                if ed.moves.len() <= 16 {
                    for (i, (_, o)) in ed.moves.iter().enumerate() { tmp[i] = Self::op1(st, f, base, *o); }
                    for (i, (d, _)) in ed.moves.iter().enumerate() { st.regs[(base + d) as usize] = tmp[i]; }
                } else {
                    let v: Vec<V> = ed.moves.iter().map(|(_, o)| Self::op1(st, f, base, *o)).collect();
                    for (i, (d, _)) in ed.moves.iter().enumerate() { st.regs[(base + d) as usize] = v[i]; }
                }
            }
        }
    }
    #[inline(always)]
    fn op1(st: &State, f: &Func, base: u32, o: Op) -> V { Self::get(st, f, base, o, 0) }
    pub fn push_call(&mut self, st: &mut State, fi: usize, args: &[V], dst: u32, normal: u32) -> X<()> {
        let f = self.func(fi);
        if !self.fseen[fi] { self.fseen[fi] = true; self.st.funcs.insert(fi); }
        if st.frames.len() > 20000 { return Err(Stop::Bug(format!("stack overflow (call depth > 20000) in {}", self.trace(st)))); }
        let base = st.regs.len() as u32;
        st.regs.resize((base + f.nregs) as usize, V::default());
        let mut k = 0;
        for (r, n) in &f.params { for j in 0..*n { if k < args.len() { st.regs[(base + r + j) as usize] = args[k]; } k += 1; } }
        st.frames.push(Frame { f, pc: 0, base, dst, sp: st.mem.sp, normal });
        Ok(())
    }
    fn ret(&mut self, st: &mut State, vals: &[V]) -> X<()> {
        let fr = st.frames.pop().unwrap();
        st.regs.truncate(fr.base as usize);
        st.mem.pop_stack(fr.sp);
        if st.frames.is_empty() { return Err(Stop::Done); }
        let cb = st.frames.last().unwrap().base;
        for (i, v) in vals.iter().enumerate() { st.regs[(cb + fr.dst) as usize + i] = *v; }
        if fr.normal != u32::MAX { self.goto(st, fr.normal); }
        Ok(())
    }
    /// finish a builtin call: write the results and advance
    pub fn finish(&mut self, st: &mut State, ci: &CallI, vals: &[V]) {
        let base = st.frames.last().unwrap().base;
        for (i, v) in vals.iter().enumerate() { st.regs[(base + ci.dst) as usize + i] = *v; }
        match ci.normal { Some(e) => self.goto(st, e), None => st.frames.last_mut().unwrap().pc += 1 }
    }
    /// run until something stops the path
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.steps(st) { Ok(()) => {} Err(e) => return e }
        }
    }
    fn steps(&mut self, st: &mut State) -> X<()> {
        let (f, base) = { let fr = st.frames.last().unwrap(); (fr.f, fr.base) };
        let nf = st.frames.len();
        macro_rules! g { ($o:expr) => { Self::get(st, f, base, $o, 0) }; ($o:expr, $k:expr) => { Self::get(st, f, base, $o, $k) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.regs[(base + $d) as usize] = v; }} }
        loop {
            let pc = st.frames[nf - 1].pc as usize;
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.cfg.max_steps { return Err(Stop::Budget); }
                if std::time::Instant::now() > self.cfg.deadline { return Err(Stop::Unsup("deadline".into())); }
            }
            let ins: &'static Inst = &f.code[pc];
            match ins {
                Inst::Bin { op, w, n, dst, a, b } => {
                    if *n == 1 { let r = self.bin(st, *op, *w, g!(*a), g!(*b))?; set!(*dst, r); } else {
                        let mut v = Vec::with_capacity(*n as usize);
                        for k in 0..*n { v.push(self.bin(st, *op, *w, g!(*a, k), g!(*b, k))?); }
                        for k in 0..*n { set!(*dst + k, v[k as usize]); }
                    }
                }
                Inst::FBin { op, n, dst, a, b, f32 } => {
                    let mut v = [V::default(); 16];
                    for k in 0..*n { v[k as usize] = self.fbin(st, *op, g!(*a, k), g!(*b, k), *f32)?; }
                    for k in 0..*n { set!(*dst + k, v[k as usize]); }
                }
                Inst::FNeg { n, dst, a, f32 } => {
                    for k in 0..*n {
                        let x = g!(*a, k);
                        let r = if x.t == 0 { if *f32 { V::c((-f32::from_bits(x.lo as u32)).to_bits() as u64) } else { V::f(-f64::from_bits(x.lo)) } } else { let t = self.real(x).unwrap(); let t = self.s.neg(t); self.vreal(t) };
                        set!(*dst + k, r);
                    }
                }
                Inst::ICmp { p, w, n, dst, a, b } => {
                    if *n == 1 { let r = self.icmp(st, *p, *w, g!(*a), g!(*b))?; set!(*dst, r); } else {
                        let mut v = Vec::with_capacity(*n as usize);
                        for k in 0..*n { v.push(self.icmp(st, *p, *w, g!(*a, k), g!(*b, k))?); }
                        for k in 0..*n { set!(*dst + k, v[k as usize]); }
                    }
                }
                Inst::FCmp { p, n, dst, a, b, f32 } => {
                    let mut v = [V::default(); 16];
                    for k in 0..*n { v[k as usize] = self.fcmp(*p, g!(*a, k), g!(*b, k), *f32)?; }
                    for k in 0..*n { set!(*dst + k, v[k as usize]); }
                }
                Inst::Select { cn, n, dst, c, a, b, leaves } => {
                    if *n == 1 { let r = self.select(st, g!(*c), g!(*a), g!(*b), leaves[0])?; set!(*dst, r); } else {
                        let mut v = Vec::with_capacity(*n as usize);
                        for k in 0..*n { v.push(self.select(st, g!(*c, if *cn == 1 { 0 } else { k }), g!(*a, k), g!(*b, k), leaves[k as usize])?); }
                        for k in 0..*n { set!(*dst + k, v[k as usize]); }
                    }
                }
                Inst::Cast { op, from, to, dst, a } => {
                    let (fl, tl) = (from.lane(), to.lane());
                    if fl.0 == tl.0 {
                        if fl.0 == 1 { let r = self.cast1(st, *op, fl.1, tl.1, g!(*a))?; set!(*dst, r); } else {
                            let mut v = Vec::with_capacity(fl.0 as usize);
                            for k in 0..fl.0 { v.push(self.cast1(st, *op, fl.1, tl.1, g!(*a, k))?); }
                            for k in 0..fl.0 { set!(*dst + k, v[k as usize]); }
                        }
                    } else {
                        // lane-changing bitcast
                        let (fw, tw) = (fl.1.bits(), tl.1.bits());
                        let mut conc = true;
                        for k in 0..fl.0 { if g!(*a, k).t != 0 { conc = false; } }
                        if conc && tl.0 == 1 && tw <= 128 {
                            let mut x = 0u128;
                            for k in 0..fl.0 { x |= (g!(*a, k).u128() & mask(fw)) << (k * fw); }
                            set!(*dst, V::c128(x));
                        } else if conc {
                            let mut bits: Vec<bool> = vec![];
                            for k in 0..fl.0 { let v = g!(*a, k).u128(); for j in 0..fw { bits.push(v >> j & 1 == 1); } }
                            for k in 0..tl.0 { let mut x = 0u128; for j in 0..tw { if bits[(k * tw + j) as usize] { x |= 1 << j; } } set!(*dst + k, V::c128(x)); }
                        } else {
                            let mut acc: Option<T> = None;
                            for k in 0..fl.0 { let v = g!(*a, k); let b = if let Some(x) = self.fb(v) { let c = self.bits_of(st, x)?; self.s.bconst(64, c as u128) } else { self.bv(v, fw) }; acc = Some(match acc { None => b, Some(p) => self.s.concat(b, p) }); }
                            let t = acc.unwrap();
                            let mut v = vec![];
                            for k in 0..tl.0 { let e = self.s.extract(t, k * tw + tw - 1, k * tw); v.push(self.norm(e, tw)); }
                            for k in 0..tl.0 { set!(*dst + k, v[k as usize]); }
                        }
                    }
                }
                Inst::Load1 { dst, p, leaf } => {
                    let a = g!(*p);
                    let a = if a.t == 0 { a.lo } else { self.addr(st, a)? };
                    let v = self.load(st, a, *leaf)?;
                    set!(*dst, v);
                }
                Inst::Load { dst, p, leaves } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    let mut v = Vec::with_capacity(leaves.len());
                    for (o, l) in leaves.iter() { v.push(self.load(st, a + o, *l)?); }
                    for (k, x) in v.into_iter().enumerate() { set!(*dst + k as u32, x); }
                }
                Inst::Store1 { v, p, leaf } => {
                    let a = g!(*p);
                    let a = if a.t == 0 { a.lo } else { self.addr(st, a)? };
                    self.store(st, a, g!(*v), *leaf)?;
                }
                Inst::Store { v, p, leaves } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    for (k, (o, l)) in leaves.iter().enumerate() { self.store(st, a + o, g!(*v, k as u32), *l)?; }
                }
                Inst::GepC { dst, base: b, off } => {
                    let v = g!(*b);
                    let v = if v.t == 0 { v.lo } else { self.addr(st, v)? };
                    set!(*dst, V::c(v.wrapping_add(*off as u64)));
                }
                Inst::Gep { dst, base: b, off, idx } => {
                    let v = g!(*b);
                    let mut x = self.addr(st, v)?.wrapping_add(*off as u64);
                    for (o, sc, w) in idx.iter() {
                        let i = g!(*o);
                        let i = self.conc(st, i, *w)?;
                        x = x.wrapping_add((sext128(i, *w) as i64).wrapping_mul(*sc) as u64);
                    }
                    set!(*dst, V::c(x));
                }
                Inst::Alloca { dst, size, align } => { let a = st.mem.alloca(*size, *align); set!(*dst, V::c(a)); }
                Inst::Br(e) => { self.goto(st, *e); continue; }
                Inst::CondBr { c, t, f: fe } => {
                    let v = g!(*c);
                    let b = if v.t == 0 { v.lo & 1 == 1 } else { let ct = self.boolean(v); self.decide(st, ct)? };
                    self.goto(st, if b { *t } else { *fe });
                    continue;
                }
                Inst::Switch { v, w, def, cases } => {
                    let x = g!(*v);
                    let mut e = *def;
                    if x.t == 0 {
                        let m = x.u128() & mask(*w);
                        for (c, ed) in cases.iter() { if *c & mask(*w) == m { e = *ed; break; } }
                    } else if *w == 1 {
                        let ct = self.boolean(x);
                        let b = self.decide(st, ct)? as u128;
                        for (c, ed) in cases.iter() { if *c & 1 == b { e = *ed; break; } }
                    } else {
                        let t = self.bv(x, *w);
                        for (c, ed) in cases.iter() {
                            let ct = self.s.bconst(*w, *c);
                            let q = self.s.bcmp(BC::Eq, t, ct);
                            if self.decide(st, q)? { e = *ed; break; }
                        }
                    }
                    self.goto(st, e);
                    continue;
                }
                Inst::Ret { v, n } => {
                    let mut vals: [V; 8] = [V::default(); 8];
                    if *n <= 8 { for k in 0..*n { vals[k as usize] = g!(*v, k); } return self.ret(st, &vals[..*n as usize]); }
                    let vals: Vec<V> = (0..*n).map(|k| g!(*v, k)).collect();
                    return self.ret(st, &vals);
                }
                Inst::RetVoid => return self.ret(st, &[]),
                Inst::Unreachable => return Err(Stop::Bug(format!("unreachable code reached in {}", self.trace(st)))),
                Inst::Copy { dst, a, n } => {
                    if *n == 1 { set!(*dst, g!(*a)); } else { let v: Vec<V> = (0..*n).map(|k| g!(*a, k)).collect(); for k in 0..*n { set!(*dst + k, v[k as usize]); } }
                }
                Inst::InsertVal { dst, n, agg, v, at, vn } => {
                    let mut t: Vec<V> = (0..*n).map(|k| g!(*agg, k)).collect();
                    for k in 0..*vn { t[(*at + k) as usize] = g!(*v, k); }
                    for k in 0..*n { set!(*dst + k, t[k as usize]); }
                }
                Inst::ExtElem { dst, v, n, idx } => {
                    let i = self.conc(st, g!(*idx), 64)? as u32;
                    if i >= *n { return self.bug(st, "extractelement index", i as u64); }
                    set!(*dst, g!(*v, i));
                }
                Inst::InsElem { dst, v, n, e, idx } => {
                    let i = self.conc(st, g!(*idx), 64)? as u32;
                    let x = g!(*e);
                    let t: Vec<V> = (0..*n).map(|k| g!(*v, k)).collect();
                    for k in 0..*n { set!(*dst + k, t[k as usize]); }
                    if i >= *n { return self.bug(st, "insertelement index", i as u64); }
                    set!(*dst + i, x);
                }
                Inst::Shuffle { dst, a, b, n, mask } => {
                    let t: Vec<V> = mask.iter().map(|&m| if m < 0 { V::c(0) } else if (m as u32) < *n { g!(*a, m as u32) } else { g!(*b, m as u32 - *n) }).collect();
                    for (k, v) in t.into_iter().enumerate() { set!(*dst + k as u32, v); }
                }
                Inst::Rmw { op, w, dst, p, v } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    let leaf = Leaf::Int(*w);
                    let old = self.load(st, a, leaf)?;
                    let x = g!(*v);
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.bin(st, Bin::Add, *w, old, x)?,
                        RmwOp::Sub => self.bin(st, Bin::Sub, *w, old, x)?,
                        RmwOp::And => self.bin(st, Bin::And, *w, old, x)?,
                        RmwOp::Or => self.bin(st, Bin::Or, *w, old, x)?,
                        RmwOp::Xor => self.bin(st, Bin::Xor, *w, old, x)?,
                        RmwOp::Nand => { let y = self.bin(st, Bin::And, *w, old, x)?; self.bin(st, Bin::Xor, *w, y, V::c(u64::MAX))? }
                        RmwOp::Umax => if old.lo > x.lo { old } else { x },
                        RmwOp::Umin => if old.lo < x.lo { old } else { x },
                        RmwOp::Max => if sx(old.lo, *w) > sx(x.lo, *w) { old } else { x },
                        RmwOp::Min => if sx(old.lo, *w) < sx(x.lo, *w) { old } else { x },
                    };
                    self.store(st, a, new, leaf)?;
                    set!(*dst, old);
                }
                Inst::CmpXchg { dst, p, cmp, new, w, leaf } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    let old = self.load(st, a, *leaf)?;
                    let c = self.icmp(st, IP::Eq, *w, old, g!(*cmp))?;
                    let ok = if c.t == 0 { c.lo == 1 } else { self.decide(st, c.t)? };
                    if ok { self.store(st, a, g!(*new), *leaf)?; }
                    set!(*dst, old);
                    set!(*dst + 1, V::c(ok as u64));
                }
                Inst::LoadBits { dst, p, n } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    let w = (*n + 7) / 8 * 8;
                    let v = self.load(st, a, Leaf::Int(w))?;
                    for k in 0..*n {
                        let b = if v.t == 0 { V::c((v.u128() >> k) as u64 & 1) } else { let t = self.bv(v, w); let e = self.s.extract(t, k, k); self.norm(e, 1) };
                        set!(*dst + k, b);
                    }
                }
                Inst::StoreBits { v, p, n } => {
                    let a = g!(*p);
                    let a = self.addr(st, a)?;
                    let mut x = 0u128;
                    for k in 0..*n {
                        let b = g!(*v, k);
                        let b = if b.t == 0 { b.lo & 1 == 1 } else { let c = self.boolean(b); self.decide(st, c)? };
                        if b { x |= 1 << k; }
                    }
                    self.store(st, a, V::c128(x), Leaf::Int((*n + 7) / 8 * 8))?;
                }
                Inst::Nop => {}
                Inst::Call(ci) => {
                    let mut buf: [V; 12] = [V::default(); 12];
                    let mut big: Vec<V> = vec![];
                    let mut k = 0usize;
                    let single = ci.args.iter().all(|(_, t)| !matches!(t, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)));
                    if single && ci.args.len() <= 12 { for (o, _) in &ci.args { buf[k] = g!(*o); k += 1; } } else { for (o, t) in &ci.args { for j in 0..t.nslots() { big.push(g!(*o, j)); } } }
                    let args: &[V] = if single && ci.args.len() <= 12 { &buf[..k] } else { &big };
                    let fi = match &ci.callee {
                        Callee::Direct(i) => *i,
                        Callee::Indirect(o) => {
                            let v = g!(*o);
                            let a = self.addr(st, v)?;
                            if a < FN_BASE || (a - FN_BASE) % FN_STRIDE != 0 || (a - FN_BASE) / FN_STRIDE >= self.m.fns.len() as u64 { return self.bug(st, "call through invalid function pointer", a); }
                            ((a - FN_BASE) / FN_STRIDE) as usize
                        }
                        Callee::Nop => { st.frames[nf - 1].pc += 1; continue; }
                    };
                    let b = self.builtin_id(fi);
                    if b != 0 {
                        self.builtin(st, b, fi, ci, args)?;
                        // builtins may push frames (callbacks) or advance
                        if st.frames.len() != nf { return Ok(()); }
                        continue;
                    }
                    let normal = ci.normal.unwrap_or(u32::MAX);
                    st.frames[nf - 1].pc += 1;
                    let args2: Vec<V> = args.to_vec();
                    self.push_call(st, fi, &args2, ci.dst, normal)?;
                    return Ok(());
                }
            }
            st.frames[nf - 1].pc += 1;
        }
    }
}
pub fn bbop(op: Bin) -> BB {
    match op { Bin::Add => BB::Add, Bin::Sub => BB::Sub, Bin::Mul => BB::Mul, Bin::UDiv => BB::UDiv, Bin::SDiv => BB::SDiv, Bin::URem => BB::URem, Bin::SRem => BB::SRem, Bin::Shl => BB::Shl, Bin::LShr => BB::LShr, Bin::AShr => BB::AShr, Bin::And => BB::And, Bin::Or => BB::Or, Bin::Xor => BB::Xor }
}
/// readable tail of a v0-mangled name
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' { k += 1; }
            if l > 0 && l < 80 && k + l <= b.len() && n.is_char_boundary(k) && n.is_char_boundary(k + l) && n[k..k + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(n[k..k + l].to_string()); i = k + l; continue; }
            i = j;
        } else { i += 1; }
    }
    let k = out.len();
    out[k.saturating_sub(3)..].join("::")
}
#[allow(dead_code)]
fn _unused(_: HashMap<u8, u8>) {}
