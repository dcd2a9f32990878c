//! Canonical rational-function form of real terms over independent transcendental atoms.
//! Every rewrite is an identity of the real functions on their domain (the path condition guarantees the domain).
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Mon = Rc<[(T, i32)]>;
pub type Poly = BTreeMap<Mon, Rat>;

#[derive(Clone, Debug)]
pub struct Rf { pub n: Poly, pub d: BTreeMap<T, i32> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sign { Pos, Neg, Zero, Unknown }
#[derive(Debug)]
pub enum Fail { Split(T), Overflow, TooBig, Div0 }
type R<X> = Result<X, Fail>;

pub trait Oracle {
    fn sign(&mut self, s: &mut Store, t: T) -> Sign;
    fn cond(&mut self, s: &mut Store, c: T) -> Option<bool>;
    fn assumed(&self, c: T) -> bool;
}

pub struct Canon<'a> {
    pub s: &'a mut Store,
    pub o: &'a mut dyn Oracle,
    memo: HashMap<T, Rf>,
    lcm: HashMap<(u8, T), i128>,
    redo: bool,
    pub limit: usize,
}

fn konst(c: Rat) -> Poly { let mut p = Poly::new(); if !c.is_zero() { p.insert(Rc::new([]), c); } p }
fn base(a: T, e: i32) -> Poly { let mut p = Poly::new(); p.insert(Rc::new([(a, e)]), Rat::ONE); p }
fn padd(a: &Poly, b: &Poly, k: Rat) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let x = c.mul(k);
        match r.get_mut(m) { Some(y) => { *y = y.add(x); if y.is_zero() { r.remove(m); } } None => { r.insert(m.clone(), x); } }
    }
    r
}
fn mmul(a: &Mon, b: &Mon) -> Mon {
    let mut v: Vec<(T, i32)> = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { v.push(a[i]); i += 1; } else if i >= a.len() || b[j].0 < a[i].0 { v.push(b[j]); j += 1; } else {
            let e = a[i].1 + b[j].1;
            if e != 0 { v.push((a[i].0, e)); }
            i += 1;
            j += 1;
        }
    }
    v.into()
}
fn factor_int(mut n: i128) -> Vec<(i128, i32)> {
    let mut v = vec![];
    let mut p = 2;
    while p * p <= n && p < 2000 { let mut e = 0; while n % p == 0 { n /= p; e += 1; } if e > 0 { v.push((p, e)); } p += 1; }
    if n > 1 { v.push((n, 1)); }
    v
}

/// product form: constant * atoms^e * polys^e
struct Fac { c: Rat, f: Vec<(T, i32, bool)> } // bool: is polynomial (multi-term)

impl<'a> Canon<'a> {
    pub fn new(s: &'a mut Store, o: &'a mut dyn Oracle) -> Self { Canon { s, o, memo: HashMap::new(), lcm: HashMap::new(), redo: false, limit: 4000 } }
    pub fn run(&mut self, t: T) -> R<Rf> {
        OVERFLOW.with(|o| o.set(false));
        for _ in 0..4 {
            self.redo = false;
            let r = self.rf(t)?;
            if OVERFLOW.with(|o| o.get()) { return Err(Fail::Overflow); }
            if !self.redo { return Ok(r); }
            self.memo.clear();
        }
        Err(Fail::TooBig)
    }
    fn chk(&self, p: &Poly) -> R<()> { if p.len() > self.limit { Err(Fail::TooBig) } else if OVERFLOW.with(|o| o.get()) { Err(Fail::Overflow) } else { Ok(()) } }
    fn pmul(&mut self, a: &Poly, b: &Poly) -> R<Poly> {
        if a.len() * b.len() > self.limit * 30 { return Err(Fail::TooBig); }
        let mut r = Poly::new();
        for (m1, c1) in a {
            for (m2, c2) in b {
                let m = mmul(m1, m2);
                let x = c1.mul(*c2);
                match r.get_mut(&m) { Some(y) => { *y = y.add(x); if y.is_zero() { r.remove(&m); } } None => { r.insert(m, x); } }
            }
        }
        self.chk(&r)?;
        self.reduce(r)
    }
    fn ppow(&mut self, a: &Poly, e: i32) -> R<Poly> {
        let mut r = konst(Rat::ONE);
        if e > 40 { return Err(Fail::TooBig); }
        for _ in 0..e { r = self.pmul(&r, a)?; }
        Ok(r)
    }
    /// sin^2 -> 1 - cos^2, sqrt|f|^2 -> |f|, cbrt(f)^3 -> f
    pub fn reduce(&mut self, p: Poly) -> R<Poly> {
        let mut p = p;
        for _ in 0..200 {
            let mut hit = None;
            'o: for m in p.keys() {
                for (i, (a, e)) in m.iter().enumerate() {
                    if *e >= 2 { match self.s.n(*a) { N::RFn(Fun::Sin | Fun::Sqrt, _) => { hit = Some((m.clone(), i)); break 'o } N::RFn(Fun::Cbrt, _) if *e >= 3 => { hit = Some((m.clone(), i)); break 'o } N::RFn(Fun::Exp, _) if self.root_of(*a).is_some_and(|x| *e as i128 >= x.1) => { hit = Some((m.clone(), i)); break 'o } _ => {} } }
                }
            }
            let Some((m, i)) = hit else { return Ok(p) };
            let c = p.remove(&m).unwrap();
            let (a, e) = m[i];
            let N::RFn(f, args) = self.s.n(a).clone() else { unreachable!() };
            let root = if f == Fun::Exp { self.root_of(a) } else { None };
            let k = match root { Some((_, l)) => l as i32, None if f == Fun::Cbrt => 3, None => 2 };
            let q = e / k;
            let mut rest: Vec<(T, i32)> = m.to_vec();
            rest[i].1 = e - k * q;
            if rest[i].1 == 0 { rest.remove(i); }
            let mut rp = Poly::new();
            rp.insert(rest.into(), c);
            let by = match f {
                Fun::Exp => { let v = root.unwrap().0; let sg = self.sgn(v)?; let f = self.rf(v)?; if !f.d.is_empty() { return Err(Fail::TooBig); } if sg < 0 { padd(&Poly::new(), &f.n, Rat::int(-1)) } else { f.n } }
                Fun::Sin => { let cs = self.s.mk(N::RFn(Fun::Cos, args)); padd(&konst(Rat::ONE), &base(cs, 2), Rat::int(-1)) }
                Fun::Sqrt => { let f = self.rf(args[0])?; let sg = self.sgn(args[0])?; if !f.d.is_empty() { return Err(Fail::TooBig); } if sg < 0 { padd(&Poly::new(), &f.n, Rat::int(-1)) } else { f.n } }
                _ => { let f = self.rf(args[0])?; if !f.d.is_empty() { return Err(Fail::TooBig); } f.n }
            };
            let bp = self.ppow(&by, q)?;
            let add = self.pmul(&rp, &bp)?;
            p = padd(&p, &add, Rat::ONE);
            self.chk(&p)?;
        }
        Err(Fail::TooBig)
    }
    fn sgn(&mut self, t: T) -> R<i32> {
        let i = self.s.info[t as usize];
        if i.lo > 0.0 { return Ok(1); }
        if i.hi < 0.0 { return Ok(-1); }
        if i.lo >= 0.0 { return Ok(1); }
        match self.o.sign(self.s, t) {
            Sign::Pos | Sign::Zero => Ok(1),
            Sign::Neg => Ok(-1),
            Sign::Unknown => { let z = self.s.int(0); let c = self.s.rcmp(RK::Lt, z, t); Err(Fail::Split(c)) }
        }
    }
    pub fn to_t(&mut self, p: &Poly) -> T {
        let mut acc = vec![];
        let mut k = Rat::ZERO;
        for (m, c) in p {
            if m.is_empty() { k = *c; continue; }
            let mut v = m.to_vec();
            v.sort_unstable_by_key(|x| x.0);
            let mt = self.s.mk(N::Mono(v.into()));
            acc.push((mt, *c));
        }
        acc.sort_unstable_by_key(|x| x.0);
        self.s.mk(N::Lin(k, acc.into()))
    }
    fn poly_of(&self, t: T) -> Poly {
        let (k, ts) = self.s.parts(t);
        let mut p = konst(k);
        for (m, c) in ts.iter() { if let N::Mono(f) = self.s.n(*m) { p.insert(f.clone(), *c); } }
        p
    }
    fn addrf(&mut self, a: &Rf, b: &Rf, k: Rat) -> R<Rf> {
        if a.d == b.d { return Ok(Rf { n: padd(&a.n, &b.n, k), d: a.d.clone() }); }
        let mut d = a.d.clone();
        for (t, e) in &b.d { let x = d.entry(*t).or_insert(0); *x = (*x).max(*e); }
        let lift = |me: &mut Self, x: &Rf| -> R<Poly> {
            let mut n = x.n.clone();
            for (t, e) in &d { let miss = e - x.d.get(t).unwrap_or(&0); if miss > 0 { let q = me.poly_of(*t); for _ in 0..miss { n = me.pmul(&n, &q)?; } } }
            Ok(n)
        };
        let (x, y) = (lift(self, a)?, lift(self, b)?);
        let n = padd(&x, &y, k);
        self.chk(&n)?;
        Ok(Rf { n, d })
    }
    fn mulrf(&mut self, a: &Rf, b: &Rf) -> R<Rf> {
        let n = self.pmul(&a.n, &b.n)?;
        let mut d = a.d.clone();
        for (t, e) in &b.d { *d.entry(*t).or_insert(0) += e; }
        let mut r = Rf { n, d };
        self.cancel(&mut r)?;
        Ok(r)
    }
    /// divide numerator by denominator factors where exact
    fn cancel(&mut self, r: &mut Rf) -> R<()> {
        if r.n.is_empty() { r.d.clear(); return Ok(()); }
        let keys: Vec<T> = r.d.keys().cloned().collect();
        for k in keys {
            let q = self.poly_of(k);
            while r.d[&k] > 0 {
                match pdiv(&r.n, &q) { Some(n) => { r.n = n; *r.d.get_mut(&k).unwrap() -= 1; } None => break }
            }
            if r.d[&k] == 0 { r.d.remove(&k); }
        }
        Ok(())
    }
    /// content * monomial * primitive polynomial (leading coefficient positive)
    fn split_content(&mut self, p: &Poly) -> (Rat, Mon, Poly) {
        let mut g: Option<Vec<(T, i32)>> = None;
        for m in p.keys() {
            g = Some(match g {
                None => m.to_vec(),
                Some(v) => {
                    let mut out = vec![];
                    let mut keys: Vec<T> = v.iter().map(|x| x.0).chain(m.iter().map(|x| x.0)).collect();
                    keys.sort_unstable();
                    keys.dedup();
                    for k in keys {
                        let e1 = v.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
                        let e2 = m.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
                        let e = e1.min(e2);
                        if e != 0 { out.push((k, e)); }
                    }
                    out
                }
            });
        }
        let g: Mon = g.unwrap_or_default().into();
        let inv: Mon = g.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into();
        let lead = match p.iter().next_back() { Some((_, c)) => *c, None => return (Rat::ZERO, Rc::new([]), Poly::new()) };
        let li = lead.inv();
        let mut q = Poly::new();
        for (m, c) in p { q.insert(mmul(m, &inv), c.mul(li)); }
        (lead, g, q)
    }
    fn invrf(&mut self, a: &Rf) -> R<Rf> {
        if a.n.is_empty() { return Err(Fail::Div0); }
        let (c, g, q) = self.split_content(&a.n);
        let mut n = Poly::new();
        n.insert(g.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into(), c.inv());
        let mut d = BTreeMap::new();
        if q.len() > 1 { let k = self.to_t(&q); d.insert(k, 1); }
        for (t, e) in a.d.clone() { let q = self.poly_of(t); for _ in 0..e { n = self.pmul(&n, &q)?; } }
        let mut r = Rf { n, d };
        self.cancel(&mut r)?;
        Ok(r)
    }
    fn powrf(&mut self, a: &Rf, e: i32) -> R<Rf> {
        if e == 0 { return Ok(Rf { n: konst(Rat::ONE), d: BTreeMap::new() }); }
        let b = if e < 0 { self.invrf(a)? } else { a.clone() };
        let mut r = b.clone();
        if e.abs() > 40 { return Err(Fail::TooBig); }
        for _ in 1..e.abs() { r = self.mulrf(&r, &b)?; }
        Ok(r)
    }
    fn c(&self, r: Rat) -> Rf { Rf { n: konst(r), d: BTreeMap::new() } }
    fn atom(&self, a: T) -> Rf { Rf { n: base(a, 1), d: BTreeMap::new() } }
    fn rf_t(&mut self, r: &Rf) -> T {
        let mut n = self.to_t(&r.n);
        for (t, e) in r.d.clone() { let p = self.s.powi(t, -e); n = self.s.mul(n, p); }
        n
    }
    pub fn rf(&mut self, t: T) -> R<Rf> {
        if let Some(r) = self.memo.get(&t) { return Ok(r.clone()); }
        let r = match self.s.n(t).clone() {
            N::Lin(k, ts) => {
                let mut acc = self.c(k);
                for (m, c) in ts.iter() { let x = self.rf(*m)?; acc = self.addrf(&acc, &x, *c)?; }
                self.cancel(&mut acc)?;
                acc
            }
            N::Mono(f) => {
                let mut acc = self.c(Rat::ONE);
                for (a, e) in f.iter() { let x = self.rf(*a)?; let x = self.powrf(&x, *e)?; acc = self.mulrf(&acc, &x)?; }
                acc
            }
            N::RVar(_) | N::RBig(_) | N::RBv(_) => self.atom(t),
            N::RIte(c, a, b) => match self.o.cond(self.s, c) { Some(true) => self.rf(a)?, Some(false) => self.rf(b)?, None => return Err(Fail::Split(c)) },
            N::RFn(f, args) => self.func(f, &args)?,
            _ => return Err(Fail::TooBig),
        };
        self.memo.insert(t, r.clone());
        Ok(r)
    }
    /// linear decomposition: (unit term with leading coefficient one, coefficient)
    fn units(&mut self, r: &Rf) -> Vec<(T, Rat, Mon)> {
        let mut v = vec![];
        let den = { let mut d = self.s.int(1); for (t, e) in r.d.clone() { let p = self.s.powi(t, -e); d = self.s.mul(d, p); } d };
        for (m, c) in r.n.clone() {
            let mut p = Poly::new();
            p.insert(m.clone(), Rat::ONE);
            let mt = self.to_t(&p);
            let u = self.s.mul(mt, den);
            let mon: Mon = if r.d.is_empty() { m } else { Rc::new([(u, 1)]) };
            v.push((u, c, mon));
        }
        v
    }
    fn unit_l(&mut self, kind: u8, u: T, d: i128) -> i128 {
        let l = *self.lcm.get(&(kind, u)).unwrap_or(&1);
        if l % d == 0 { return l; }
        let g = { let (mut a, mut b) = (l, d); while b != 0 { let t = a % b; a = b; b = t; } a };
        let n = l / g * d;
        self.lcm.insert((kind, u), n);
        self.redo = true;
        n
    }
    /// the atom exp(1/l * ln|v|), l > 1
    fn root_of(&self, a: T) -> Option<(T, i128)> {
        let N::RFn(Fun::Exp, args) = self.s.n(a) else { return None };
        let N::Lin(k, ts) = self.s.n(args[0]) else { return None };
        if !k.is_zero() || ts.len() != 1 || ts[0].1.n != 1 || ts[0].1.d < 2 { return None; }
        let N::Mono(f) = self.s.n(ts[0].0) else { return None };
        if f.len() != 1 || f[0].1 != 1 { return None; }
        match self.s.n(f[0].0) { N::RFn(Fun::Ln, v) => Some((v[0], ts[0].1.d)), _ => None }
    }
    /// |v|^(n/d) over the common root of v used in this obligation
    fn root(&mut self, v: T, n: i128, d: i128) -> R<Rf> {
        let g = { let (mut a, mut b) = (n.abs(), d); while b != 0 { let t = a % b; a = b; b = t; } a.max(1) };
        let (n, d) = (n / g, d / g);
        if n == 0 { return Ok(self.c(Rat::ONE)); }
        let l = self.unit_l(2, v, d);
        let k = n * (l / d);
        if l > 48 || k.abs() > 60 { return Err(Fail::TooBig); }
        if d == 1 {
            let sg = self.sgn(v)?;
            let b = Rf { n: padd(&Poly::new(), &self.poly_of(v), Rat::int(sg as i128)), d: BTreeMap::new() };
            return self.powrf(&b, n as i32);
        }
        if l == 2 || l == 3 {
            let a = self.mkfn(if l == 2 { Fun::Sqrt } else { Fun::Cbrt }, vec![v]);
            let sg = if l == 3 { self.sgn(v)? } else { 1 };
            let a = Rf { n: padd(&Poly::new(), &base(a, 1), Rat::int(sg as i128)), d: BTreeMap::new() };
            return self.powrf(&a, k as i32);
        }
        let z = self.s.int(0);
        let c = self.s.rcmp(RK::Eq, v, z);
        if c != FALSE && self.o.cond(self.s, c) != Some(false) { return Err(Fail::Split(c)); }
        let lv = self.mkfn(Fun::Ln, vec![v]);
        let lt = self.s.atom(lv);
        let arg = self.s.scale(lt, Rat::new(1, l));
        let e = self.mkfn(Fun::Exp, vec![arg]);
        let r = Rf { n: base(e, k.rem_euclid(l) as i32), d: BTreeMap::new() };
        let q = self.root(v, k.div_euclid(l), 1)?;
        self.mulrf(&q, &r)
    }
    fn mkfn(&mut self, f: Fun, args: Vec<T>) -> T { self.s.mk(N::RFn(f, args.into())) }
    fn exp_rf(&mut self, u: &Rf) -> R<Rf> {
        let mut acc = self.c(Rat::ONE);
        for (ut, c, mon) in self.units(u) {
            // exp(c ln|f|), exp(asinh), exp(acosh)
            if mon.len() == 1 && mon[0].1 == 1 {
                if let N::RFn(f, a) = self.s.n(mon[0].0).clone() {
                    match f {
                        Fun::Ln => {
                            let x = if matches!(self.s.n(a[0]), N::Lin(k, t) if t.is_empty() && k.n > 0) && c.d <= 3 {
                                let b = self.rf(a[0])?;
                                let r = match c.d { 1 => b, 2 => self.sqrt_rf(&b)?, _ => self.cbrt_rf(&b)? };
                                self.powrf(&r, c.n as i32)?
                            } else { self.root(a[0], c.n, c.d)? };
                            acc = self.mulrf(&acc, &x)?;
                            continue;
                        }
                        Fun::Asinh | Fun::Acosh if c.d == 1 => {
                            let v = self.rf(a[0])?;
                            let v2 = self.mulrf(&v, &v)?;
                            let one = self.c(Rat::ONE);
                            let w = self.addrf(&v2, &one, Rat::int(if f == Fun::Asinh { 1 } else { -1 }))?;
                            let sq = self.sqrt_rf(&w)?;
                            let e = self.addrf(&v, &sq, Rat::ONE)?;
                            let x = if c.n >= 0 { self.powrf(&e, c.n as i32)? } else {
                                // 1/(v + sqrt(v^2 +- 1)) = +-(sqrt - v)
                                let g = self.addrf(&sq, &v, Rat::int(-1))?;
                                let g = if f == Fun::Asinh { g } else { Rf { n: padd(&Poly::new(), &g.n, Rat::int(-1)), d: g.d } };
                                self.powrf(&g, -c.n as i32)?
                            };
                            acc = self.mulrf(&acc, &x)?;
                            continue;
                        }
                        Fun::Atanh if c.d == 1 && c.n % 2 == 0 => {
                            let v = self.rf(a[0])?;
                            let one = self.c(Rat::ONE);
                            let p = self.addrf(&one, &v, Rat::ONE)?;
                            let m = self.addrf(&one, &v, Rat::int(-1))?;
                            let mi = self.invrf(&m)?;
                            let q = self.mulrf(&p, &mi)?;
                            let x = self.powrf(&q, (c.n / 2) as i32)?;
                            acc = self.mulrf(&acc, &x)?;
                            continue;
                        }
                        _ => {}
                    }
                }
            }
            let l = self.unit_l(0, ut, c.d);
            let arg = self.s.scale(ut, Rat::new(1, l));
            let a = self.mkfn(Fun::Exp, vec![arg]);
            let e = c.mul(Rat::int(l));
            if e.d != 1 || e.n.abs() > 40 { if self.redo { continue; } return Err(Fail::TooBig); }
            let x = Rf { n: base(a, e.n as i32), d: BTreeMap::new() };
            acc = self.mulrf(&acc, &x)?;
        }
        Ok(acc)
    }
    /// factorisation of a nonzero rational function into constant, atoms and polynomials
    fn fac(&mut self, r: &Rf) -> R<Fac> {
        if r.n.is_empty() { return Err(Fail::Div0); }
        let (c, g, q) = self.split_content(&r.n);
        let mut f: Vec<(T, i32, bool)> = g.iter().map(|x| (x.0, x.1, false)).collect();
        if q.len() > 1 {
            // perfect square detection for univariate-style quadratics: q = (sum)^2
            if let Some(root) = psqrt(&q) { let (c2, g2, q2) = self.split_content(&root); let _ = c2; for x in g2.iter() { f.push((x.0, 2 * x.1, false)); } if q2.len() > 1 { let t = self.to_t(&q2); f.push((t, 2, true)); } } else { let t = self.to_t(&q); f.push((t, 1, true)); }
        }
        for (t, e) in &r.d { f.push((*t, -e, true)); }
        Ok(Fac { c, f })
    }
    fn ln_rf(&mut self, r: &Rf) -> R<Rf> {
        let fac = self.fac(r)?;
        let mut acc = self.c(Rat::ZERO);
        for (n, sg) in [(fac.c.n.abs(), 1), (fac.c.d, -1)] {
            for (p, e) in factor_int(n) {
                let pt = self.s.int(p);
                let a = self.mkfn(Fun::Ln, vec![pt]);
                let x = self.atom(a);
                acc = self.addrf(&acc, &x, Rat::int((sg * e) as i128))?;
            }
        }
        for (t, e, poly) in fac.f {
            if !poly {
                if let N::RFn(f, a) = self.s.n(t).clone() {
                    match f {
                        Fun::Exp => { let v = self.rf(a[0])?; acc = self.addrf(&acc, &v, Rat::int(e as i128))?; continue; }
                        Fun::Sqrt | Fun::Cbrt => { let v = self.rf(a[0])?; let l = self.ln_rf(&v)?; acc = self.addrf(&acc, &l, Rat::new(e as i128, if f == Fun::Sqrt { 2 } else { 3 }))?; continue; }
                        _ => {}
                    }
                }
            }
            let at = if poly { t } else { self.s.atom(t) };
            let a = self.mkfn(Fun::Ln, vec![at]);
            let x = self.atom(a);
            acc = self.addrf(&acc, &x, Rat::int(e as i128))?;
        }
        Ok(acc)
    }
    /// sqrt|r|
    fn sqrt_rf(&mut self, r: &Rf) -> R<Rf> {
        if r.n.is_empty() { return Ok(self.c(Rat::ZERO)); }
        let fac = self.fac(r)?;
        let mut acc = self.c(Rat::ONE);
        for (n, sg) in [(fac.c.n.abs(), 1), (fac.c.d, -1)] {
            for (p, e) in factor_int(n) {
                let q = e.div_euclid(2);
                let x = self.c(Rat::int(p).pow(sg * q));
                acc = self.mulrf(&acc, &x)?;
                if e % 2 == 1 {
                    let pt = self.s.int(p);
                    let a = self.mkfn(Fun::Sqrt, vec![pt]);
                    // 1/sqrt p = sqrt p / p
                    let mut x = Rf { n: base(a, 1), d: BTreeMap::new() };
                    if sg < 0 { let k = self.c(Rat::new(1, p)); x = self.mulrf(&x, &k)?; }
                    acc = self.mulrf(&acc, &x)?;
                }
            }
        }
        for (t, e, poly) in fac.f {
            if !poly {
                if let N::RFn(f @ (Fun::Sqrt | Fun::Cbrt), a) = self.s.n(t).clone() {
                    let x = self.root(a[0], e as i128, if f == Fun::Sqrt { 4 } else { 6 })?;
                    acc = self.mulrf(&acc, &x)?;
                    continue;
                }
                if let N::RFn(Fun::Exp, a) = self.s.n(t).clone() {
                    let v = self.rf(a[0])?;
                    let h = Rf { n: padd(&Poly::new(), &v.n, Rat::new(e as i128, 2)), d: v.d };
                    let x = self.exp_rf(&h)?;
                    acc = self.mulrf(&acc, &x)?;
                    continue;
                }
            }
            let q = e.div_euclid(2);
            let at = if poly { t } else { self.s.atom(t) };
            if q != 0 {
                let sg = self.sgn(at)?;
                let b = Rf { n: padd(&Poly::new(), &self.poly_of(at), Rat::int(sg as i128)), d: BTreeMap::new() };
                let x = self.powrf(&b, q)?;
                acc = self.mulrf(&acc, &x)?;
            }
            if e.rem_euclid(2) == 1 {
                let x = self.root(at, 1, 2)?;
                acc = self.mulrf(&acc, &x)?;
            }
        }
        Ok(acc)
    }
    fn cbrt_rf(&mut self, r: &Rf) -> R<Rf> {
        if r.n.is_empty() { return Ok(self.c(Rat::ZERO)); }
        let fac = self.fac(r)?;
        let mut acc = self.c(Rat::int(if fac.c.n < 0 { -1 } else { 1 }));
        for (n, sg) in [(fac.c.n.abs(), 1), (fac.c.d, -1)] {
            for (p, e) in factor_int(n) {
                let (q, m) = ((sg * e).div_euclid(3), (sg * e).rem_euclid(3));
                let x = self.c(Rat::int(p).pow(q));
                acc = self.mulrf(&acc, &x)?;
                if m > 0 { let pt = self.s.int(p); let a = self.mkfn(Fun::Cbrt, vec![pt]); let x = Rf { n: base(a, m), d: BTreeMap::new() }; acc = self.mulrf(&acc, &x)?; }
            }
        }
        for (t, e, poly) in fac.f {
            if !poly {
                if let N::RFn(f @ (Fun::Sqrt | Fun::Cbrt), a) = self.s.n(t).clone() {
                    let x = self.root(a[0], e as i128, if f == Fun::Sqrt { 6 } else { 9 })?;
                    let sg = if f == Fun::Cbrt && e % 2 != 0 { self.sgn(a[0])? } else { 1 };
                    let x = Rf { n: padd(&Poly::new(), &x.n, Rat::int(sg as i128)), d: x.d };
                    acc = self.mulrf(&acc, &x)?;
                    continue;
                }
                if let N::RFn(Fun::Exp, a) = self.s.n(t).clone() {
                    let v = self.rf(a[0])?;
                    let h = Rf { n: padd(&Poly::new(), &v.n, Rat::new(e as i128, 3)), d: v.d };
                    let x = self.exp_rf(&h)?;
                    acc = self.mulrf(&acc, &x)?;
                    continue;
                }
            }
            let (q, m) = (e.div_euclid(3), e.rem_euclid(3));
            let at = if poly { t } else { self.s.atom(t) };
            if q != 0 { let b = Rf { n: self.poly_of(at), d: BTreeMap::new() }; let x = self.powrf(&b, q)?; acc = self.mulrf(&acc, &x)?; }
            if m > 0 {
                let x = if self.unit_l(2, at, 3) == 3 { let a = self.mkfn(Fun::Cbrt, vec![at]); Rf { n: base(a, m), d: BTreeMap::new() } } else {
                    let x = self.root(at, m as i128, 3)?;
                    let sg = if m % 2 != 0 { self.sgn(at)? } else { 1 };
                    Rf { n: padd(&Poly::new(), &x.n, Rat::int(sg as i128)), d: x.d }
                };
                acc = self.mulrf(&acc, &x)?;
            }
        }
        Ok(acc)
    }
    fn sincos(&mut self, u: &Rf) -> R<(Rf, Rf)> {
        let mut s = self.c(Rat::ZERO);
        let mut c = self.c(Rat::ONE);
        for (ut, k, mon) in self.units(u) {
            let (mut us, mut uc, n);
            let pi_unit = mon.len() == 1 && mon[0].1 == 1 && matches!(self.s.n(mon[0].0), N::RFn(Fun::Pi, _));
            let inv = if mon.len() == 1 && mon[0].1 == 1 { match self.s.n(mon[0].0).clone() { N::RFn(f @ (Fun::Asin | Fun::Atan), a) if k.d == 1 => Some((f, a[0])), _ => None } } else { None };
            if pi_unit && [1, 2, 3, 4, 6].contains(&k.d) {
                let m = (k.n * (12 / k.d)).rem_euclid(24); // multiples of pi/12
                let (a, b) = self.pi12(m)?;
                us = a;
                uc = b;
                n = 1;
            } else if let Some((f, v)) = inv {
                let v = self.rf(v)?;
                let v2 = self.mulrf(&v, &v)?;
                let one = self.c(Rat::ONE);
                if f == Fun::Asin {
                    let w = self.addrf(&one, &v2, Rat::int(-1))?;
                    uc = self.sqrt_rf(&w)?;
                    us = v;
                } else {
                    let w = self.addrf(&one, &v2, Rat::ONE)?;
                    let q = self.sqrt_rf(&w)?;
                    uc = self.invrf(&q)?;
                    us = self.mulrf(&v, &uc.clone())?;
                }
                n = k.n;
            } else {
                let l = self.unit_l(1, ut, k.d);
                let arg = self.s.scale(ut, Rat::new(1, l));
                let (sa, ca) = (self.mkfn(Fun::Sin, vec![arg]), self.mkfn(Fun::Cos, vec![arg]));
                us = self.atom(sa);
                uc = self.atom(ca);
                let e = k.mul(Rat::int(l));
                if e.d != 1 { if self.redo { continue; } return Err(Fail::TooBig); }
                n = e.n;
            }
            if n.abs() > 12 { return Err(Fail::TooBig); }
            // multiple angle
            let (bs, bc) = (us.clone(), uc.clone());
            us = self.c(Rat::ZERO);
            uc = self.c(Rat::ONE);
            for _ in 0..n.abs() { let (x, y) = self.addang(&us, &uc, &bs, &bc)?; us = x; uc = y; }
            if n < 0 { us = Rf { n: padd(&Poly::new(), &us.n, Rat::int(-1)), d: us.d }; }
            let (x, y) = self.addang(&s, &c, &us, &uc)?;
            s = x;
            c = y;
        }
        Ok((s, c))
    }
    fn addang(&mut self, s1: &Rf, c1: &Rf, s2: &Rf, c2: &Rf) -> R<(Rf, Rf)> {
        let a = self.mulrf(s1, c2)?;
        let b = self.mulrf(c1, s2)?;
        let s = self.addrf(&a, &b, Rat::ONE)?;
        let a = self.mulrf(c1, c2)?;
        let b = self.mulrf(s1, s2)?;
        let c = self.addrf(&a, &b, Rat::int(-1))?;
        Ok((s, c))
    }
    fn pi12(&mut self, m: i128) -> R<(Rf, Rf)> {
        // sin, cos of m*pi/12 for m with known values
        let sq = |me: &mut Self, p: i128, k: Rat| { let pt = me.s.int(p); let a = me.mkfn(Fun::Sqrt, vec![pt]); let mut q = Poly::new(); q.insert(Rc::new([(a, 1)]), k); Rf { n: q, d: BTreeMap::new() } };
        let val = |me: &mut Self, m: i128| -> Option<Rf> {
            Some(match m.rem_euclid(24) {
                0 | 12 => me.c(Rat::ZERO),
                2 | 10 => me.c(Rat::new(1, 2)),
                14 | 22 => me.c(Rat::new(-1, 2)),
                3 | 9 => sq(me, 2, Rat::new(1, 2)),
                15 | 21 => sq(me, 2, Rat::new(-1, 2)),
                4 | 8 => sq(me, 3, Rat::new(1, 2)),
                16 | 20 => sq(me, 3, Rat::new(-1, 2)),
                6 => me.c(Rat::ONE),
                18 => me.c(Rat::int(-1)),
                _ => return None,
            })
        };
        match (val(self, m), val(self, m + 6)) { (Some(a), Some(b)) => Ok((a, b)), _ => Err(Fail::TooBig) }
    }
    fn neg_lead(&self, r: &Rf) -> bool { r.n.iter().next_back().map(|x| x.1.n < 0).unwrap_or(false) }
    fn odd(&mut self, f: Fun, u: &Rf) -> Rf {
        if u.n.is_empty() { return self.c(Rat::ZERO); }
        let (v, sg) = if self.neg_lead(u) { (Rf { n: padd(&Poly::new(), &u.n, Rat::int(-1)), d: u.d.clone() }, -1) } else { (u.clone(), 1) };
        let t = self.rf_t(&v);
        let a = self.mkfn(f, vec![t]);
        let mut p = Poly::new();
        p.insert(Rc::new([(a, 1)]), Rat::int(sg));
        Rf { n: p, d: BTreeMap::new() }
    }
    fn inverse_form(&self, u: &Rf) -> bool {
        if u.n.len() != 1 { return false; }
        let (m, _) = u.n.iter().next().unwrap();
        if u.d.is_empty() { m.first().map(|x| x.1 < 0).unwrap_or(false) } else { m.iter().all(|x| x.1 <= 0) }
    }
    /// asin(sin v), acos(cos v), atan(tan v) with v known to lie in the principal range
    fn principal(&mut self, f: Fun, arg: T) -> Option<T> {
        let (k, ts) = self.s.parts(arg);
        if !k.is_zero() || ts.len() != 1 || ts[0].1 != Rat::ONE { return None; }
        let N::Mono(m) = self.s.n(ts[0].0).clone() else { return None };
        let get = |s: &Store, i: usize, e: i32, f: Fun| -> Option<T> { let x = m.get(i)?; if x.1 != e { return None; } match s.n(x.0) { N::RFn(g, a) if *g == f => Some(a[0]), _ => None } };
        let v = match f {
            Fun::Asin if m.len() == 1 => get(self.s, 0, 1, Fun::Sin)?,
            Fun::Acos if m.len() == 1 => get(self.s, 0, 1, Fun::Cos)?,
            Fun::Atan if m.len() == 1 => get(self.s, 0, 1, Fun::Tan)?,
            Fun::Atan if m.len() == 2 => { let (i, j) = if m[0].1 == 1 { (0, 1) } else { (1, 0) }; let a = get(self.s, i, 1, Fun::Sin)?; let b = get(self.s, j, -1, Fun::Cos)?; if a != b { return None; } a }
            _ => return None,
        };
        let p = self.mkfn(Fun::Pi, vec![]);
        let p = self.s.atom(p);
        let h = self.s.scale(p, Rat::new(1, 2));
        let (lo, hi) = if f == Fun::Acos { (self.s.int(0), p) } else { (self.s.neg(h), h) };
        let k = if f == Fun::Atan { RK::Lt } else { RK::Le };
        let a = self.s.rcmp(k, lo, v);
        let b = self.s.rcmp(k, v, hi);
        for c in [a, b] { if c != TRUE && self.o.cond(self.s, c) != Some(true) { return None; } }
        Some(v)
    }
    fn func(&mut self, f: Fun, args: &[T]) -> R<Rf> {
        if f == Fun::Exp { let z = self.s.int(0); let c = self.s.rcmp(RK::Eq, args[0], z); if self.o.assumed(c) { return Ok(self.c(Rat::ONE)); } }
        if matches!(f, Fun::Asin | Fun::Acos | Fun::Atan) { if let Some(v) = self.principal(f, args[0]) { return self.rf(v); } }
        let u = if args.is_empty() { self.c(Rat::ZERO) } else { self.rf(args[0])? };
        Ok(match f {
            Fun::Pi => { let a = self.mkfn(Fun::Pi, vec![]); self.atom(a) }
            Fun::Exp => self.exp_rf(&u)?,
            Fun::Ln => self.ln_rf(&u)?,
            Fun::Sin => self.sincos(&u)?.0,
            Fun::Cos => self.sincos(&u)?.1,
            Fun::Tan => { let (s, c) = self.sincos(&u)?; let ci = self.invrf(&c)?; self.mulrf(&s, &ci)? }
            Fun::Sinh | Fun::Cosh | Fun::Tanh => {
                let e = self.exp_rf(&u)?;
                let ei = self.invrf(&e)?;
                let s = self.addrf(&e, &ei, Rat::int(-1))?;
                let c = self.addrf(&e, &ei, Rat::ONE)?;
                let half = self.c(Rat::new(1, 2));
                match f { Fun::Sinh => self.mulrf(&s, &half)?, Fun::Cosh => self.mulrf(&c, &half)?, _ => { let ci = self.invrf(&c)?; self.mulrf(&s, &ci)? } }
            }
            Fun::Acos => {
                let a = self.odd(Fun::Asin, &u);
                let pi = self.mkfn(Fun::Pi, vec![]);
                let mut h = Poly::new();
                h.insert(Rc::new([(pi, 1)]), Rat::new(1, 2));
                let h = Rf { n: h, d: BTreeMap::new() };
                self.addrf(&h, &a, Rat::int(-1))?
            }
            Fun::Atan if self.inverse_form(&u) => {
                // atan(u) = sign(u) pi/2 - atan(1/u)
                let iu = self.invrf(&u)?;
                let it = self.rf_t(&iu);
                let sg = self.sgn(it)?;
                let a = self.odd(Fun::Atan, &iu);
                let pi = self.mkfn(Fun::Pi, vec![]);
                let mut h = Poly::new();
                h.insert(Rc::new([(pi, 1)]), Rat::new(sg as i128, 2));
                let h = Rf { n: h, d: BTreeMap::new() };
                self.addrf(&h, &a, Rat::int(-1))?
            }
            Fun::Asin | Fun::Atan | Fun::Asinh | Fun::Atanh => self.odd(f, &u),
            Fun::Sqrt => self.sqrt_rf(&u)?,
            Fun::Cbrt => self.cbrt_rf(&u)?,
            _ => {
                let mut v = vec![];
                for a in args { let r = self.rf(*a)?; v.push(self.rf_t(&r)); }
                let t = self.s.func(f, v);
                // func returns an atom-Lin
                Rf { n: self.poly_of(t), d: BTreeMap::new() }
            }
        })
    }
    /// numerator (negative exponents cleared, reduced) and the denominator as a term for sign purposes
    pub fn numer(&mut self, r: &Rf) -> R<(Poly, Vec<(T, i32)>)> {
        let mut min: BTreeMap<T, i32> = BTreeMap::new();
        for m in r.n.keys() { for (a, e) in m.iter() { if *e < 0 { let x = min.entry(*a).or_insert(0); *x = (*x).min(*e); } } }
        let mut den: Vec<(T, i32)> = r.d.iter().map(|(t, e)| (*t, *e)).collect();
        let mult: Mon = min.iter().map(|(a, e)| (*a, -*e)).collect::<Vec<_>>().into();
        let mut n = Poly::new();
        for (m, c) in &r.n { n.insert(mmul(m, &mult), *c); }
        for (a, e) in min { let at = self.s.atom(a); den.push((at, -e)); }
        let n = self.reduce(n)?;
        Ok((n, den))
    }
    /// condition with cleared denominators over canonical atoms
    pub fn cond(&mut self, c: T) -> R<T> {
        Ok(match self.s.n(c).clone() {
            N::Not(a) => { let a = self.cond(a)?; self.s.not(a) }
            N::And(v) => { let mut o = vec![]; for x in v.iter() { o.push(self.cond(*x)?); } self.s.and(&o) }
            N::Or(v) => { let mut o = vec![]; for x in v.iter() { o.push(self.cond(*x)?); } self.s.or(&o) }
            N::RCmp(k, e) => {
                let r = self.run(e)?;
                let (mut n, den) = self.numer(&r)?;
                if k != RK::Eq {
                    for (t, e) in den {
                        if e % 2 == 0 || self.s.info[t as usize].lo > 0.0 { continue; }
                        let pos = match self.s.n(t) { N::Lin(k, ts) if k.is_zero() && ts.len() == 1 && ts[0].1.n > 0 => match self.s.n(ts[0].0) { N::Mono(f) if f.len() == 1 && f[0].1 == 1 => matches!(self.s.n(f[0].0), N::RFn(Fun::Exp | Fun::Sqrt, _)), _ => false }, _ => false };
                        if pos { continue; }
                        match self.o.sign(self.s, t) {
                            Sign::Pos => {}
                            Sign::Neg => n = padd(&Poly::new(), &n, Rat::int(-1)),
                            _ => { let q = self.poly_of(t); n = self.pmul(&n, &q)?; }
                        }
                    }
                }
                let t = self.to_t(&n);
                let r = self.s.rcmp0(k, t);
                if OVERFLOW.with(|o| o.get()) { return Err(Fail::Overflow); }
                r
            }
            _ => c,
        })
    }
}

/// exact polynomial division (lexicographic on the monomial order), None if inexact
pub fn pdiv(a: &Poly, b: &Poly) -> Option<Poly> {
    if b.is_empty() { return None; }
    // order by (total degree, monomial) for termination
    let deg = |m: &Mon| -> i32 { m.iter().map(|x| x.1).sum() };
    let neg = |m: &Mon| m.iter().any(|x| x.1 < 0);
    if b.keys().any(neg) { return None; }
    // graded order comparable under multiplication: compare total degree, then lex by atom id with exponents
    fn cmp(a: &Mon, b: &Mon) -> std::cmp::Ordering {
        let (mut i, mut j) = (0, 0);
        loop {
            match (a.get(i), b.get(j)) {
                (None, None) => return std::cmp::Ordering::Equal,
                (Some(x), None) => return x.1.cmp(&0),
                (None, Some(y)) => return 0.cmp(&y.1),
                (Some(x), Some(y)) => {
                    if x.0 < y.0 { return x.1.cmp(&0); }
                    if y.0 < x.0 { return 0.cmp(&y.1); }
                    if x.1 != y.1 { return x.1.cmp(&y.1); }
                    i += 1;
                    j += 1;
                }
            }
        }
    }
    let ord = |a: &Mon, b: &Mon| deg(a).cmp(&deg(b)).then_with(|| cmp(a, b));
    let (lb, cb) = b.iter().max_by(|x, y| ord(x.0, y.0))?;
    let inv: Mon = lb.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into();
    let mut rem = a.clone();
    let mut q = Poly::new();
    let mind = a.keys().map(deg).min().unwrap_or(0);
    let mut steps = 0;
    // allow Laurent numerators: shift by their minimal exponents
    let mut mins: BTreeMap<T, i32> = BTreeMap::new();
    for m in a.keys() { for (t, e) in m.iter() { if *e < 0 { let x = mins.entry(*t).or_insert(0); *x = (*x).min(*e); } } }
    while !rem.is_empty() {
        steps += 1;
        if steps > 200 { return None; }
        let (lm, lc) = rem.iter().max_by(|x, y| ord(x.0, y.0)).map(|(m, c)| (m.clone(), *c))?;
        let m = mmul(&lm, &inv);
        if m.iter().any(|(t, e)| *e < *mins.get(t).unwrap_or(&0)) { return None; }
        if deg(&m) + 200 < mind { return None; }
        let c = lc.mul(cb.inv());
        for (bm, bc) in b {
            let x = mmul(bm, &m);
            let v = bc.mul(c).neg();
            match rem.get_mut(&x) { Some(y) => { *y = y.add(v); if y.is_zero() { rem.remove(&x); } } None => { rem.insert(x, v); } }
        }
        q.insert(m, c);
        if OVERFLOW.with(|o| o.get()) { return None; }
    }
    Some(q)
}
/// square root of a polynomial that is a perfect square with 3 or 6 terms
pub fn psqrt(p: &Poly) -> Option<Poly> {
    if p.len() != 3 && p.len() != 6 { return None; }
    let mut roots: Vec<(Mon, Rat)> = vec![];
    for (m, c) in p {
        if m.iter().all(|x| x.1 % 2 == 0) && c.n > 0 {
            if let (Some(a), Some(b)) = (isqrt(c.n), isqrt(c.d)) { roots.push((m.iter().map(|x| (x.0, x.1 / 2)).collect::<Vec<_>>().into(), Rat::new(a, b))); }
        }
    }
    if roots.len() > 4 || roots.is_empty() { return None; }
    let n = roots.len();
    for subset in 1u32..(1 << n) {
        let idx: Vec<usize> = (0..n).filter(|i| subset >> i & 1 == 1).collect();
        if idx.len() * (idx.len() + 1) / 2 != p.len() { continue; }
        for signs in 0..(1u32 << (idx.len() - 1)) {
            let mut r = Poly::new();
            for (j, &i) in idx.iter().enumerate() { let s = j > 0 && signs >> (j - 1) & 1 == 1; r.insert(roots[i].0.clone(), if s { roots[i].1.neg() } else { roots[i].1 }); }
            let mut sq = Poly::new();
            for (m1, c1) in &r { for (m2, c2) in &r { let m = mmul(m1, m2); let x = c1.mul(*c2); let e = sq.entry(m.clone()).or_insert(Rat::ZERO); *e = e.add(x); if e.is_zero() { sq.remove(&m); } } }
            if &sq == p { return Some(r); }
        }
    }
    None
}
