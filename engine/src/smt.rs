//! SMT-LIB emission and the z3 process.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Unsat, Sat(Vec<(u32, f64)>), Unknown }

#[derive(Default, Clone, Debug)]
pub struct SmtStats { pub queries: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub cached: u64, pub time: f64 }

pub struct Solver {
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    cache: HashMap<Vec<T>, Res>,
    pub stats: SmtStats,
    pub bin: String,
    pub dump: Option<String>,
    nq: u64,
    pub deadline: Option<std::time::Instant>,
}

pub struct Emit<'a> {
    s: &'a Store,
    pub decls: String,
    pub defs: String,
    pub facts: Vec<String>,
    memo: HashMap<T, String>,
    pub vars: Vec<u32>,
    ints: bool,
    tmp: u32,
}

fn rat_s(r: &Rat) -> String {
    let n = if r.n < 0 { format!("(- {}.0)", r.n.unsigned_abs()) } else { format!("{}.0", r.n) };
    if r.d == 1 { n } else { format!("(/ {} {}.0)", n, r.d) }
}
/// exact rational literal of a double
fn big_s(v: f64) -> String {
    let b = v.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { (b & ((1 << 52) - 1)) | (1 << 52) };
    let ex = e - 1075;
    let p2 = |k: i32| -> String { format!("(^ 2.0 {})", k) };
    let s = if ex >= 0 { format!("(* {}.0 {})", m, p2(ex)) } else { format!("(/ {}.0 {})", m, p2(-ex)) };
    if v < 0.0 { format!("(- {})", s) } else { s }
}

impl<'a> Emit<'a> {
    pub fn new(s: &'a Store, ints: bool) -> Self { Emit { s, decls: String::new(), defs: String::new(), facts: vec![], memo: HashMap::new(), vars: vec![], ints, tmp: 0 } }
    fn share(&mut self, sort: &str, e: String) -> String {
        if e.len() < 24 { return e; }
        self.tmp += 1;
        let n = format!("d{}", self.tmp);
        let _ = writeln!(self.defs, "(define-fun {} () {} {})", n, sort, e);
        n
    }
    pub fn t(&mut self, t: T) -> String {
        if let Some(x) = self.memo.get(&t) { return x.clone(); }
        let s = self.s;
        let r = match s.n(t) {
            N::None => "false".into(),
            N::True => "true".into(),
            N::False => "false".into(),
            N::Not(a) => format!("(not {})", self.t(*a)),
            N::And(v) => { let x: Vec<String> = v.iter().map(|x| self.t(*x)).collect(); self.share("Bool", format!("(and {})", x.join(" "))) }
            N::Or(v) => { let x: Vec<String> = v.iter().map(|x| self.t(*x)).collect(); self.share("Bool", format!("(or {})", x.join(" "))) }
            N::RCmp(k, e) => {
                let x = self.t(*e);
                let o = match k { RK::Lt => "<", RK::Le => "<=", RK::Eq => "=" };
                format!("({} {} 0.0)", o, x)
            }
            N::IsInt(a) => format!("(is_int {})", self.t(*a)),
            N::BCmp(k, a, b) => {
                let o = match k { BC::Eq => "=", BC::Ult => "bvult", BC::Ule => "bvule", BC::Slt => "bvslt", BC::Sle => "bvsle" };
                let (x, y) = (self.t(*a), self.t(*b));
                self.share("Bool", format!("({} {} {})", o, x, y))
            }
            N::BVar(v, w) => { let _ = writeln!(self.decls, "(declare-const b{} (_ BitVec {}))", v, w); self.vars.push(*v); format!("b{}", v) }
            N::BConst(w, v) => if w % 4 == 0 { format!("#x{:0w$x}", v, w = (*w / 4) as usize) } else { format!("#b{:0w$b}", v, w = *w as usize) },
            N::BBin(o, a, b) => {
                let op = match o { BB::Add => "bvadd", BB::Sub => "bvsub", BB::Mul => "bvmul", BB::UDiv => "bvudiv", BB::SDiv => "bvsdiv", BB::URem => "bvurem", BB::SRem => "bvsrem", BB::Shl => "bvshl", BB::LShr => "bvlshr", BB::AShr => "bvashr", BB::And => "bvand", BB::Or => "bvor", BB::Xor => "bvxor" };
                let w = s.bw(t);
                let (x, y) = (self.t(*a), self.t(*b));
                self.share(&format!("(_ BitVec {})", w), format!("({} {} {})", op, x, y))
            }
            N::BZext(a, w) => format!("((_ zero_extend {}) {})", w - s.bw(*a), self.t(*a)),
            N::BSext(a, w) => format!("((_ sign_extend {}) {})", w - s.bw(*a), self.t(*a)),
            N::BExt(a, h, l) => format!("((_ extract {} {}) {})", h, l, self.t(*a)),
            N::BCat(a, b) => format!("(concat {} {})", self.t(*a), self.t(*b)),
            N::BIte(c, a, b) => {
                let w = s.bw(t);
                let (c, a, b) = (self.t(*c), self.t(*a), self.t(*b));
                self.share(&format!("(_ BitVec {})", w), format!("(ite {} {} {})", c, a, b))
            }
            N::Lin(k, ts) => {
                let mut v: Vec<String> = vec![];
                for (m, c) in ts.iter() { let x = self.t(*m); v.push(if *c == Rat::ONE { x } else { format!("(* {} {})", rat_s(c), x) }); }
                if !k.is_zero() || v.is_empty() { v.push(rat_s(k)); }
                if v.len() == 1 { v.pop().unwrap() } else { self.share("Real", format!("(+ {})", v.join(" "))) }
            }
            N::Mono(f) => {
                let mut num = vec![];
                let mut den = vec![];
                for (a, e) in f.iter() { let x = self.t(*a); for _ in 0..e.abs().min(64) { if *e > 0 { num.push(x.clone()) } else { den.push(x.clone()) } } }
                let p = |v: Vec<String>| if v.is_empty() { "1.0".to_string() } else if v.len() == 1 { v[0].clone() } else { format!("(* {})", v.join(" ")) };
                let n = p(num);
                if den.is_empty() { n } else { format!("(/ {} {})", n, p(den)) }
            }
            N::RVar(v) => {
                let int = matches!(s.vars[*v as usize], VarKind::Coef(..));
                self.vars.push(*v);
                let n = format!("x{}", v);
                let _ = writeln!(self.decls, "(declare-const {} {})", n, if int && self.ints { "Int" } else { "Real" });
                if let VarKind::Coef(lo, hi) = s.vars[*v as usize] { let z = |v: i64| if v < 0 { format!("(- {})", -v) } else { v.to_string() }; self.facts.push(format!("(and (<= {} {n}) (<= {n} {}))", z(lo), z(hi))); }
                if int && self.ints { format!("(to_real {})", n) } else { n }
            }
            N::RFn(f, a) => {
                let n = format!("f{}", t);
                match f {
                    Fun::Floor if self.ints => { let x = self.t(a[0]); self.memo.insert(t, format!("(to_real (to_int {}))", x)); return self.memo[&t].clone(); }
                    Fun::Trunc if self.ints => { let x = self.t(a[0]); let r = self.share("Real", format!("(ite (>= {x} 0.0) (to_real (to_int {x})) (- (to_real (to_int (- {x})))))")); self.memo.insert(t, r.clone()); return r; }
                    _ => {}
                }
                let _ = writeln!(self.decls, "(declare-const {} Real)", n);
                match f {
                    Fun::Pi => self.facts.push(format!("(and (< 3.14159265 {n}) (< {n} 3.14159266))")),
                    Fun::Exp => {
                        let x = self.t(a[0]);
                        self.facts.push(format!("(> {n} 0.0)"));
                        self.facts.push(format!("(>= {n} (+ 1.0 {x}))"));
                        self.facts.push(format!("(=> (= {n} 1.0) (= {x} 0.0))"));
                    }
                    Fun::Cosh => self.facts.push(format!("(>= {n} 1.0)")),
                    Fun::Sin | Fun::Cos => self.facts.push(format!("(and (<= {n} 1.0) (>= {n} (- 1.0)))")),
                    Fun::Tanh => self.facts.push(format!("(and (< {n} 1.0) (> {n} (- 1.0)))")),
                    Fun::Ln => {
                        let x = self.t(a[0]);
                        self.facts.push(format!("(=> (> {x} 0.0) (and (<= {n} (- {x} 1.0)) (= (< {x} 1.0) (< {n} 0.0)) (= (= {x} 1.0) (= {n} 0.0))))"));
                    }
                    Fun::Sqrt => {
                        let x = self.t(a[0]);
                        self.facts.push(format!("(=> (>= {x} 0.0) (and (>= {n} 0.0) (= (* {n} {n}) {x})))"));
                    }
                    Fun::Cbrt => { let x = self.t(a[0]); self.facts.push(format!("(= (* {n} {n} {n}) {x})")); }
                    Fun::Sinh | Fun::Asinh | Fun::Atan => { let x = self.t(a[0]); self.facts.push(format!("(and (= (> {x} 0.0) (> {n} 0.0)) (= (= {x} 0.0) (= {n} 0.0)))")); }
                    Fun::Floor => { let x = self.t(a[0]); self.facts.push(format!("(and (<= {n} {x}) (< {x} (+ {n} 1.0)))")); }
                    Fun::Ceil => { let x = self.t(a[0]); self.facts.push(format!("(and (>= {n} {x}) (> (+ {x} 1.0) {n}))")); }
                    Fun::Trunc => { let x = self.t(a[0]); self.facts.push(format!("(ite (>= {x} 0.0) (and (<= {n} {x}) (< {x} (+ {n} 1.0))) (and (>= {n} {x}) (> (+ {x} 1.0) {n})))")); }
                    Fun::Round => { let x = self.t(a[0]); self.facts.push(format!("(and (<= (- {n} 0.5) {x}) (<= {x} (+ {n} 0.5)))")); }
                    _ => {}
                }
                n
            }
            N::RIte(c, a, b) => { let (c, a, b) = (self.t(*c), self.t(*a), self.t(*b)); self.share("Real", format!("(ite {} {} {})", c, a, b)) }
            N::RBig(b) => big_s(f64::from_bits(*b)),
            N::RBv(b) => { let x = self.t(*b); self.share("Real", format!("(to_real (bv2nat {}))", x)) }
            N::BReal(a, w) => { let x = self.t(*a); self.share(&format!("(_ BitVec {})", w), format!("((_ int2bv {}) (to_int {}))", w, x)) }
            N::FBits(_) => { let n = format!("fb{}", t); let _ = writeln!(self.decls, "(declare-const {} (_ BitVec 64))", n); n }
        };
        self.memo.insert(t, r.clone());
        r
    }
}

fn parse_val(s: &str) -> f64 {
    // "(- (/ 1.0 3.0))", "#x41", "1.414?", "(root-obj ...)"
    let s = s.trim();
    if let Some(h) = s.strip_prefix("#x") { return u128::from_str_radix(h, 16).map(|v| v as f64).unwrap_or(f64::NAN); }
    if let Some(h) = s.strip_prefix("#b") { return u128::from_str_radix(h, 2).map(|v| v as f64).unwrap_or(f64::NAN); }
    if let Some(r) = s.strip_prefix("(- ") { return -parse_val(&r[..r.len() - 1]); }
    if let Some(r) = s.strip_prefix("(/ ") {
        let r = &r[..r.len() - 1];
        // split at top-level space
        let mut d = 0;
        for (i, c) in r.char_indices() {
            match c { '(' => d += 1, ')' => d -= 1, ' ' if d == 0 => return parse_val(&r[..i]) / parse_val(&r[i + 1..]), _ => {} }
        }
        return f64::NAN;
    }
    s.trim_end_matches('?').parse().unwrap_or(f64::NAN)
}

impl Solver {
    pub fn new() -> Solver {
        let bin = std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".into());
        Solver { child: None, cache: HashMap::new(), stats: SmtStats::default(), bin, dump: std::env::var("SYMX_DUMP").ok(), nq: 0, deadline: None }
    }
    pub fn clear(&mut self) { self.cache.clear(); }
    fn start(&mut self) {
        let mut c = Command::new(&self.bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3 not found");
        let mut i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || { for l in BufReader::new(o).lines() { match l { Ok(l) => if tx.send(l).is_err() { break; }, Err(_) => break } } });
        let _ = i.write_all(b"(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n(set-option :global-declarations false)\n");
        self.child = Some((c, i, rx));
    }
    fn kill(&mut self) { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } }
    /// run a script; first result line and optional values
    pub fn raw(&mut self, script: &str, vars: &[(u32, String)], timeout_ms: u64) -> Res {
        if self.child.is_none() { self.start(); }
        let t0 = Instant::now();
        self.nq += 1;
        self.stats.queries += 1;
        let mut full = String::with_capacity(script.len() + 200);
        let _ = write!(full, "(push 1)\n(set-option :timeout {})\n{}", timeout_ms, script);
        full.push_str("(echo \"@@\")\n");
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}.smt2", d, self.nq), &full); }
        let deadline = Duration::from_millis(timeout_ms * 2 + 3000);
        let r = {
            let (_, i, rx) = self.child.as_mut().unwrap();
            let wr = i.write_all(full.as_bytes()).and_then(|_| i.flush());
            let mut ans = None;
            let mut dead = wr.is_err();
            while !dead {
                match rx.recv_timeout(deadline) {
                    Ok(l) => {
                        let l = l.trim().to_string();
                        if l == "@@" { break; }
                        match l.as_str() { "sat" | "unsat" | "unknown" => ans = Some(l), "timeout" => ans = Some("unknown".into()), _ => if l.contains("error") && !l.contains("model is not available") { if std::env::var("SYMX_V").is_ok() { eprintln!("z3: {}\n{}", l, full); } } }
                    }
                    Err(_) => dead = true,
                }
            }
            if dead { Err(()) } else { Ok(ans) }
        };
        let res = match r {
            Err(()) => { self.kill(); Res::Unknown }
            Ok(a) => match a.as_deref() {
                Some("unsat") => Res::Unsat,
                Some("sat") => {
                    if vars.is_empty() { Res::Sat(vec![]) } else { self.values(vars) }
                }
                _ => Res::Unknown,
            },
        };
        if let Some((_, i, _)) = self.child.as_mut() { let _ = i.write_all(b"(pop 1)\n"); }
        match &res { Res::Unsat => self.stats.unsat += 1, Res::Sat(_) => self.stats.sat += 1, Res::Unknown => self.stats.unknown += 1 }
        self.stats.time += t0.elapsed().as_secs_f64();
        res
    }
    fn values(&mut self, vars: &[(u32, String)]) -> Res {
        let (_, i, rx) = self.child.as_mut().unwrap();
        let mut out = vec![];
        let mut q = String::new();
        for (_, n) in vars { let _ = writeln!(q, "(get-value ({}))", n); }
        q.push_str("(echo \"@@\")\n");
        let _ = i.write_all(q.as_bytes());
        let _ = i.flush();
        let mut txt = String::new();
        loop {
            match rx.recv_timeout(Duration::from_secs(5)) { Ok(l) => { if l.trim() == "@@" { break; } txt.push_str(&l); txt.push(' '); } Err(_) => { self.kill(); return Res::Sat(vec![]); } }
        }
        for (v, n) in vars {
            let pat = format!("(({} ", n);
            if let Some(p) = txt.find(&pat) {
                let r = &txt[p + pat.len()..];
                let mut d = 2i32;
                let mut e = r.len();
                for (i, c) in r.char_indices() { match c { '(' => d += 1, ')' => { d -= 1; if d == 1 { e = i; break; } } _ => {} } }
                out.push((*v, parse_val(&r[..e])));
            }
        }
        Res::Sat(out)
    }
    /// satisfiability of a conjunction. ints: treat coefficients as integers (otherwise relaxed to reals)
    pub fn check(&mut self, s: &Store, asserts: &[T], ints: bool, model: bool, timeout_ms: u64) -> Res {
        let mut key: Vec<T> = asserts.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.contains(&FALSE) { return Res::Unsat; }
        key.push(if ints { T::MAX } else { T::MAX - 1 });
        if let Some(r) = self.cache.get(&key) {
            if !(model && matches!(r, Res::Sat(v) if v.is_empty())) { self.stats.cached += 1; return r.clone(); }
        }
        if self.deadline.is_some_and(|d| std::time::Instant::now() > d) { return Res::Unknown; }
        let mut em = Emit::new(s, ints);
        let bs: Vec<String> = asserts.iter().map(|a| em.t(*a)).collect();
        let mut sc = String::new();
        sc.push_str(&em.decls);
        sc.push_str(&em.defs);
        let mut fs: HashSet<&String> = HashSet::new();
        for f in &em.facts { if fs.insert(f) { let _ = writeln!(sc, "(assert {})", f); } }
        for b in &bs { let _ = writeln!(sc, "(assert {})", b); }
        sc.push_str("(check-sat)\n");
        let vars: Vec<(u32, String)> = if model { em.vars.iter().map(|v| (*v, match s.vars[*v as usize] { VarKind::Bv(_) => format!("b{}", v), _ => format!("x{}", v) })).collect() } else { vec![] };
        let r = self.raw(&sc, &vars, timeout_ms);
        self.cache.insert(key, r.clone());
        r
    }
}
impl Drop for Solver { fn drop(&mut self) { self.kill(); } }
