//! Proof obligations.
use crate::lemma::*;
use crate::smt::*;
use crate::state::*;
use crate::term::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict { Norm, Smt, Round, Cex(Vec<f64>), Unknown(String) }

impl Exec {
    pub fn cand(&mut self, st: &State, kind: &str, id: u32, m: &[f64], msg: String) {
        self.st.ncands += 1;
        let key = (id, format!("{}|{}", kind, st.notes.join("|")));
        let c = self.st.seen_cands.entry(key).or_insert(0);
        *c += 1;
        if *c > 3 || self.st.cands.len() > 400 { return; }
        let inputs = self.input_values(st, m);
        // further points on the same path
        let mut alts = vec![];
        for k in 0..4u32 {
            let base = if k < 2 { Some(m.to_vec()) } else { None };
            let mut skip = 1 + k;
            if let Some(x) = self.find_model(st, base.as_deref(), 30, &mut |_, _| { if skip > 0 { skip -= 1; false } else { true } }) { alts.push(self.input_values(st, &x)); }
        }
        self.st.cands.push(Cand { func: self.fname.clone(), kind: kind.into(), id, notes: st.notes.clone(), inputs, msg, alts });
    }
    fn any_model(&mut self, st: &mut State) -> Vec<f64> {
        self.refresh_model(st);
        match &st.model { Some(m) => m.to_vec(), None => { let mut m = vec![f64::NAN; self.s.vars.len()]; let fv = self.free_vars(st); for v in fv { m[v as usize] = self.fresh_value_in(st, v); } self.sub_model(st, &mut m); m } }
    }
    pub fn path_failure(&mut self, st: &mut State, kind: &str, msg: String) {
        // the path must be feasible
        let a = st.pc.clone();
        let r = self.z.check(&self.s, &a, true, false, self.cfg.ob_timeout);
        if r == Res::Unsat { self.st.dead += 1; return; }
        let m = self.any_model(st);
        self.cand(st, kind, 0, &m, msg);
    }
    pub fn ob_bool(&mut self, st: &mut State, c: T, id: u32) {
        self.st.ob_total += 1;
        *self.st.asserts.entry(id).or_insert(0) += 1;
        if c == TRUE { self.st.ob_concrete += 1; return; }
        if c == FALSE {
            let a = st.pc.clone();
            if self.z.check(&self.s, &a, true, false, self.cfg.ob_timeout) == Res::Unsat { self.st.ob_smt += 1; return; }
            let m = self.any_model(st);
            self.cand(st, "assert", id, &m, format!("assertion {} is false on the whole path", id));
            return;
        }
        let v = self.prove(st, c);
        self.account(st, v, id, c);
    }
    fn account(&mut self, st: &mut State, v: Verdict, id: u32, c: T) {
        match v {
            Verdict::Norm => self.st.ob_norm += 1,
            Verdict::Smt => self.st.ob_smt += 1,
            Verdict::Round => self.st.ob_round += 1,
            Verdict::Cex(m) => { let msg = format!("assertion {}: {}", id, self.s.show(c).chars().take(300).collect::<String>()); self.cand(st, "assert", id, &m, msg) }
            Verdict::Unknown(w) => {
                if self.tolerance_window(st) { self.st.ob_tol += 1; let m = self.any_model(st); self.cand(st, "undecided", id, &m, w); return; }
                self.st.ob_unknown += 1;
                if self.st.unknown_list.len() < 40 {
                    let p = st.pc.iter().map(|c| self.s.show(*c)).collect::<Vec<_>>().join(" & ");
                    self.st.unknown_list.push(format!("{}#{} [{}] {} :: {} | path {}", self.fname, id, st.notes.join(" "), w, self.s.show(c).chars().take(400).collect::<String>(), p.chars().take(300).collect::<String>()));
                }
                // let the native replay look for a failing point
                let m = self.any_model(st);
                self.cand(st, "undecided", id, &m, w);
            }
        }
    }
    pub fn ob_eq(&mut self, st: &mut State, a: V, b: V, id: u32) {
        self.st.ob_total += 1;
        *self.st.asserts.entry(id).or_insert(0) += 1;
        if a.t == 0 && b.t == 0 {
            let (x, y) = (f64::from_bits(a.lo), f64::from_bits(b.lo));
            if x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-6 * (1.0 + x.abs().max(y.abs())) && (x - y).is_finite() { self.st.ob_concrete += 1; return; }
            let p = st.pc.clone();
            if self.z.check(&self.s, &p, true, false, self.cfg.ob_timeout) == Res::Unsat { self.st.ob_smt += 1; return; }
            let m = self.any_model(st);
            self.cand(st, "assert_eq", id, &m, format!("{} != {}", x, y));
            return;
        }
        let (x, y) = match (self.real(a), self.real(b)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                let p = st.pc.clone();
                if self.z.check(&self.s, &p, true, false, self.cfg.ob_timeout) == Res::Unsat { self.st.ob_smt += 1; return; }
                let m = self.any_model(st);
                let (sa, sb) = (self.showv(a), self.showv(b));
                self.cand(st, "assert_eq", id, &m, format!("{} != {}", sa, sb));
                return;
            }
        };
        let d = self.s.sub(x, y);
        let c = self.s.rcmp0(RK::Eq, d);
        if c == TRUE { self.st.ob_norm += 1; return; }
        let v = self.prove(st, c);
        match v {
            Verdict::Cex(m) => {
                let (sa, sb) = (self.showv(a), self.showv(b));
                self.cand(st, "assert_eq", id, &m, format!("{} != {}", sa.chars().take(300).collect::<String>(), sb.chars().take(300).collect::<String>()));
            }
            v => self.account(st, v, id, c),
        }
    }
    /// the path lies inside a numeric tolerance window |e| < eps of the code under test
    fn tolerance_window(&mut self, st: &State) -> bool {
        for p in st.pc.clone() {
            if let N::RCmp(RK::Lt | RK::Le, e) = *self.s.n(p) {
                let (k, ts) = self.s.parts(e);
                let sc = ts.iter().map(|x| x.1.to_f64().abs()).fold(0.0, f64::max);
                if sc == 0.0 { continue; }
                for q in st.pc.clone() {
                    if q == p { continue; }
                    if let N::RCmp(RK::Lt | RK::Le, e2) = *self.s.n(q) {
                        let (k2, ts2) = self.s.parts(e2);
                        if ts2.len() == ts.len() && ts.iter().zip(ts2.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1.neg()) && (k.to_f64() + k2.to_f64()).abs() / sc < 1e-7 { return true; }
                    }
                }
            }
        }
        false
    }
    fn showv(&self, v: V) -> String { if v.t == 0 { format!("{}", f64::from_bits(v.lo)) } else { self.s.show(v.t) } }

    /// path condition implies c ?
    pub fn prove(&mut self, st: &State, c: T) -> Verdict {
        let mut st2 = st.clone_light();
        self.prove_rec(&mut st2, c, 0)
    }
    fn numeric_violation(&mut self, st: &State, c: T, tries: u32) -> Option<Vec<f64>> {
        let n = self.s.n(c).clone();
        self.find_model(st, None, tries, &mut |e: &Exec, m: &[f64]| {
            let mut memo = HashMap::new();
            match &n {
                N::RCmp(RK::Eq, t) => {
                    let v = e.s.evalr(*t, m, &mut memo);
                    if v.is_nan() { return false; }
                    // scale by the largest summand
                    let sc = match e.s.n(*t) { N::Lin(k, ts) => ts.iter().map(|(x, c)| (e.s.evalr(*x, m, &mut memo) * c.to_f64()).abs()).fold(k.to_f64().abs(), f64::max), _ => 1.0 };
                    v.abs() > 1e-7 * (sc.max(1e-3)) && sc.is_finite()
                }
                _ => e.s.evalb(c, m, &mut memo) == Some(false),
            }
        })
    }
    /// case split on a disjunction of the path condition
    fn split_or(&mut self, st: &State, c: T, depth: u32) -> Option<Verdict> {
        if depth >= 4 { return None; }
        let mut vc = vec![];
        self.s.vars_of(c, &mut vc, &mut Default::default());
        let mut pick = None;
        for (i, p) in st.pc.iter().enumerate() {
            if let N::Or(v) = self.s.n(*p).clone() {
                if v.len() > 8 { continue; }
                let mut vp = vec![];
                self.s.vars_of(*p, &mut vp, &mut Default::default());
                if vp.iter().any(|x| vc.contains(x)) { pick = Some((i, v)); break; }
            }
        }
        let (i, ds) = pick?;
        let mut best = Verdict::Norm;
        for d in ds.iter() {
            let mut s2 = st.clone_light();
            s2.pc.remove(i);
            s2.model = None;
            if !self.feasible(&s2, *d) { best = Verdict::Smt; continue; }
            let nd = s2.defs.len();
            if !self.add_cond(&mut s2, *d) { continue; }
            let mut c2 = c;
            for (v, t) in s2.defs[nd..].to_vec() { let mut map = HashMap::new(); map.insert(v, t); c2 = self.s.subst(c2, &map, &mut HashMap::new()); }
            match self.prove_rec(&mut s2, c2, depth + 1) { Verdict::Norm => {} Verdict::Smt => if best == Verdict::Norm { best = Verdict::Smt }, Verdict::Round => best = Verdict::Round, o => return Some(o) }
        }
        Some(best)
    }
    fn prove_rec(&mut self, st: &mut State, c: T, depth: u32) -> Verdict {
        if c == TRUE { return Verdict::Norm; }
        if let Some(true) = st.known.get(&c) { return Verdict::Norm; }
        if let N::And(v) = self.s.n(c).clone() {
            let mut best = Verdict::Norm;
            for x in v.iter() { match self.prove_rec(st, *x, depth) { Verdict::Norm => {} Verdict::Smt => if best == Verdict::Norm { best = Verdict::Smt }, Verdict::Round => best = Verdict::Round, o => return o } }
            return best;
        }
        let npc = st.pc.clone();
        // canonical forms
        let (fail, cc, cpc) = {
            let mut or = PathOracle { pc: &npc, z: &mut self.z, timeout: self.cfg.br_timeout, memo: HashMap::new(), cmemo: HashMap::new() };
            let mut cn = Canon::new(&mut self.s, &mut or);
            match cn.cond(c) {
                Ok(t) => {
                    let mut v = vec![];
                    if t != TRUE && t != FALSE { for p in &npc { match cn.cond(*p) { Ok(x) => v.push(x), Err(_) => v.push(*p) } } }
                    (None, t, v)
                }
                Err(f) => (Some(f), FALSE, vec![]),
            }
        };
        OVERFLOW.with(|o| o.set(false));
        if let Some(f) = fail {
            match f {
                Fail::Split(x) if depth < 6 => {
                    let nx = self.s.not(x);
                    let mut best = Verdict::Norm;
                    for y in [x, nx] {
                        if !self.feasible(st, y) { best = Verdict::Smt; continue; }
                        let mut s2 = st.clone_light();
                        if !self.add_cond(&mut s2, y) { continue; }
                        let mut map: HashMap<u32, T> = HashMap::new();
                        let mut c2 = c;
                        for (v, t) in s2.defs[st.defs.len()..].to_vec() { map.clear(); map.insert(v, t); c2 = self.s.subst(c2, &map, &mut HashMap::new()); }
                        if c2 == FALSE { let m = self.any_model(&mut s2); return Verdict::Cex(m); }
                        match self.prove_rec(&mut s2, c2, depth + 1) { Verdict::Norm => {} Verdict::Smt => if best == Verdict::Norm { best = Verdict::Smt }, Verdict::Round => best = Verdict::Round, o => return o }
                    }
                    return best;
                }
                f => {
                    if let N::RCmp(RK::Eq, e) = *self.s.n(c) { if self.s.zero_up_to_rounding(e) { return Verdict::Round; } }
                    if let Some(m) = self.numeric_violation(st, c, 60) { return Verdict::Cex(m); }
                    if let Some(v) = self.split_or(st, c, depth) { return v; }
                    // raw query
                    let nc = self.s.not(c);
                    let mut a = npc.clone();
                    a.push(nc);
                    if self.z.check(&self.s, &a, false, false, self.cfg.ob_timeout) == Res::Unsat { return Verdict::Smt; }
                    return Verdict::Unknown(format!("{:?}", f));
                }
            }
        }
        if cc == TRUE { return Verdict::Norm; }
        for e in [cc, c] { if let N::RCmp(RK::Eq, e) = *self.s.n(e) { if self.s.zero_up_to_rounding(e) { return Verdict::Round; } } }
        if let Some(m) = self.numeric_violation(st, c, 60) { return Verdict::Cex(m); }
        let ncc = self.s.not(cc);
        if cc == FALSE {
            if self.z.check(&self.s, &npc, false, false, self.cfg.ob_timeout) == Res::Unsat { return Verdict::Smt; }
        } else {
            let mut a = cpc.clone();
            a.push(ncc);
            let r = self.z.check(&self.s, &a, false, false, self.cfg.ob_timeout);
            if r == Res::Unsat { return Verdict::Smt; }
            if std::env::var("SYMX_V").is_ok() { eprintln!("unproved: {}\n  canon {}\n  pc {}", self.s.show(c), self.s.show(cc), cpc.iter().map(|x| self.s.show(*x)).collect::<Vec<_>>().join(" & ")); }
        }
        let nc = self.s.not(c);
        let mut a = npc.clone();
        a.push(nc);
        match self.z.check(&self.s, &a, true, true, self.cfg.ob_timeout) {
            Res::Unsat => return Verdict::Smt,
            Res::Sat(vals) => {
                let mut m = vec![f64::NAN; self.s.vars.len()];
                for (v, x) in vals { m[v as usize] = x; }
                if let Some(m) = { let n = self.s.n(c).clone(); let _ = n; self.find_model(st, Some(&m), 100, &mut |e: &Exec, m: &[f64]| match e.s.n(c) { N::RCmp(RK::Eq, t) => { let v = e.s.evalr(*t, m, &mut HashMap::new()); v.abs() > 1e-7 } _ => e.s.evalb(c, m, &mut HashMap::new()) == Some(false) }) } { return Verdict::Cex(m); }
            }
            Res::Unknown => {}
        }
        if let Some(v) = self.split_or(st, c, depth) { return v; }
        // split on small coefficient domains
        if depth < 3 {
            let mut vs = vec![];
            self.s.vars_of(c, &mut vs, &mut Default::default());
            vs.sort_unstable();
            vs.dedup();
            for v in vs {
                if let VarKind::Coef(lo, hi) = self.s.vars[v as usize] {
                    let (lo, hi) = *st.dom.get(&v).unwrap_or(&(lo, hi));
                    if hi - lo > 12 { continue; }
                    let mut best = Verdict::Smt;
                    for k in lo..=hi {
                        let vt = self.s.rvar(v);
                        let kt = self.s.int(k as i128);
                        let e = self.s.rcmp(RK::Eq, vt, kt);
                        if !self.feasible(st, e) { continue; }
                        let mut s2 = st.clone_light();
                        if !self.add_cond(&mut s2, e) { continue; }
                        let mut map = HashMap::new();
                        map.insert(v, kt);
                        let c2 = self.s.subst(c, &map, &mut HashMap::new());
                        match self.prove_rec(&mut s2, c2, depth + 1) { Verdict::Norm | Verdict::Smt => {} Verdict::Round => best = Verdict::Round, o => { best = o; break; } }
                    }
                    return best;
                }
            }
        }
        Verdict::Unknown("solver".into())
    }
}
impl State {
    /// copy without memory and registers (for proofs)
    pub fn clone_light(&self) -> State {
        State {
            regs: vec![], frames: vec![], mem: crate::mem::Mem::new(crate::ir::GLOBAL_BASE), pc: self.pc.clone(), known: self.known.clone(), defs: self.defs.clone(), model: self.model.clone(), repr: self.repr.clone(),
            inputs: self.inputs.clone(), dom: self.dom.clone(), bdom: self.bdom.clone(), steps: 0, notes: self.notes.clone(), tls: vec![], choices: 0, nonce: 0, bigap: self.bigap,
        }
    }
}
