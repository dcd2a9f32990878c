//! C24 LaTeX and Unicode output, read back with standard conventions, denote the same value
use super::pgen::*;
use super::prim::*;
use super::refm::*;
use super::shapes::{F1, F2};
use super::tgen::{T, num, op, t};
use symb_anafis::Expr;

/// the text does not follow the conventions, or its value is not known here
enum No { Bad, Unknown }
type R = Result<f64, No>;
fn known(v: f64) -> R { if fin(v) { Ok(v) } else { Err(No::Unknown) } }
const GREEK: [(&str, &str); 5] = [("alpha", "\u{3b1}"), ("theta", "\u{3b8}"), ("omega", "\u{3c9}"), ("varphi", "\u{3c6}"), ("mu", "\u{3bc}")];

/// LaTeX
struct Tex<'a> { s: &'a str, env: &'a Env, sym: (&'a str, f64) }
impl<'a> Tex<'a> {
    fn ws(&mut self) { self.s = self.s.trim_start(); }
    fn eat(&mut self, t: &str) -> bool { self.ws(); match self.s.strip_prefix(t) { Some(r) => { self.s = r; true } None => false } }
    fn need(&mut self, t: &str) -> Result<(), No> { if self.eat(t) { Ok(()) } else { Err(No::Bad) } }
    /// a control word is not a prefix of a longer one
    fn word(&mut self, t: &str) -> bool {
        self.ws();
        match self.s.strip_prefix(t) { Some(r) if !r.starts_with(|c: char| c.is_ascii_alphabetic()) => { self.s = r; true } _ => false }
    }
    fn group(&mut self) -> R { self.need("{")?; let v = self.expr()?; self.need("}")?; Ok(v) }
    /// what a script or a macro argument without braces takes: one character
    fn script(&mut self) -> R {
        self.ws();
        if self.s.starts_with('{') { return self.group(); }
        match self.s.chars().next() {
            Some(c) if c.is_ascii_digit() => { self.s = &self.s[1..]; Ok(c as u8 as f64 - 48.0) }
            Some(c) if c.is_ascii_alphabetic() => { let v = self.env.get(&self.s[..1]).ok_or(No::Unknown); self.s = &self.s[1..]; v }
            _ => Err(No::Bad),
        }
    }
    fn expr(&mut self) -> R {
        let mut v = self.term()?;
        loop {
            if self.eat("+") { v += self.term()? } else if self.eat("-") { v -= self.term()? } else { return Ok(v) }
        }
    }
    fn term(&mut self) -> R {
        let mut v = self.unary()?;
        loop {
            if self.word("\\cdot") { v *= self.unary()? } else { return Ok(v) }
        }
    }
    fn unary(&mut self) -> R { if self.eat("-") { Ok(-self.unary()?) } else { self.power() } }
    fn power(&mut self) -> R {
        let b = self.atom()?;
        if !self.eat("^") { return Ok(b); }
        let x = self.script()?;
        // x^{a}^{b} is not LaTeX
        self.ws();
        if self.s.starts_with('^') { return Err(No::Bad); }
        known(b.powf(x))
    }
    fn args(&mut self) -> Result<Vec<f64>, No> {
        self.need("\\left(")?;
        let mut v = vec![self.expr()?];
        while self.eat(",") { v.push(self.expr()?) }
        self.need("\\right)")?;
        Ok(v)
    }
    fn call1(&mut self, n: &str) -> R { let a = self.args()?; if a.len() != 1 { return Err(No::Bad); } known(f1(n, a[0]).ok_or(No::Unknown)?) }
    fn call2(&mut self, n: &str, first: f64) -> R { let a = self.args()?; if a.len() != 1 { return Err(No::Bad); } known(f2(n, first, a[0]).ok_or(No::Unknown)?) }
    fn name(&mut self) -> Result<String, No> {
        self.need("{")?;
        let k = self.s.find('}').ok_or(No::Bad)?;
        let n = self.s[..k].replace("\\_", "_");
        self.s = &self.s[k + 1..];
        Ok(n)
    }
    fn atom(&mut self) -> R {
        self.ws();
        if self.word("\\frac") { let a = self.group()?; let b = self.group()?; return known(a / b); }
        if self.eat("\\left(") { let v = self.expr()?; self.need("\\right)")?; return Ok(v); }
        if self.eat("\\left|") { let v = self.expr()?; self.need("\\right|")?; return Ok(v.abs()); }
        if self.word("\\lfloor") { let v = self.expr()?; if !self.word("\\rfloor") { return Err(No::Bad); } return known(v.floor()); }
        if self.word("\\lceil") { let v = self.expr()?; if !self.word("\\rceil") { return Err(No::Bad); } return known(v.ceil()); }
        if self.eat("\\sqrt[3]") { let v = self.group()?; return known(f1("cbrt", v).unwrap()); }
        if self.word("\\sqrt") { let v = self.group()?; return known(v.sqrt()); }
        for n in ["sin", "cos", "tan", "cot", "sec", "csc", "sinh", "cosh", "tanh", "coth", "ln", "exp"] { if self.word(&format!("\\{n}")) { return self.call1(n); } }
        for n in ["sin", "cos", "tan"] { if self.word(&format!("\\arc{n}")) { return self.call1(&format!("a{n}")); } }
        if self.eat("\\log_") { let b = self.script()?; let a = self.args()?; if a.len() != 1 { return Err(No::Bad); } return known(a[0].ln() / b.ln()); }
        if self.word("\\log") { return self.call1("log10"); }
        if self.word("\\Gamma") { return self.call1("gamma"); }
        if self.eat("\\psi_1") { return self.call1("trigamma"); }
        if self.eat("\\psi_2") { return self.call1("tetragamma"); }
        if self.eat("\\psi^{(") { let n = self.expr()?; self.need(")}")?; return self.call2("polygamma", n); }
        if self.eat("\\psi\\left") { self.s = &self.s[..]; return self.tail1("digamma"); }
        if self.eat("\\zeta^{(") { let n = self.expr()?; self.need(")}")?; return self.call2("zeta_deriv", n); }
        if self.eat("\\zeta\\left") { return self.tail1("zeta"); }
        if self.eat("K\\left") { return self.tail1("elliptic_k"); }
        if self.eat("E\\left") { return self.tail1("elliptic_e"); }
        if self.eat("W\\left") { return self.tail1("lambertw"); }
        for (l, n) in [("J", "besselj"), ("Y", "bessely"), ("I", "besseli"), ("K", "besselk"), ("H", "hermite")] {
            if self.eat(&format!("{l}_{{")) { let k = self.expr()?; self.need("}")?; return self.call2(n, k); }
        }
        if self.eat("\\mathrm{B}") { let a = self.args()?; if a.len() != 2 { return Err(No::Bad); } return known(f2("beta", a[0], a[1]).unwrap()); }
        if self.word("\\operatorname") || self.word("\\text") {
            let n = self.name()?;
            let n = match n.as_str() { "arsinh" => "asinh", "arcosh" => "acosh", "artanh" => "atanh", "arcoth" => "acoth", "arsech" => "asech", "arcsch" => "acsch", "sgn" => "signum", n => n }.to_string();
            let a = self.args()?;
            return match a.len() { 1 => known(f1(&n, a[0]).ok_or(No::Unknown)?), 2 => known(f2(&n, a[0], a[1]).ok_or(No::Unknown)?), _ => Err(No::Unknown) };
        }
        if self.word("\\pi") { return Ok(std::f64::consts::PI); }
        for (n, _) in GREEK { if self.word(&format!("\\{n}")) { return if self.sym.0 == n { Ok(self.sym.1) } else { Err(No::Bad) }; } }
        let d = self.s.len() - self.s.trim_start_matches(|c: char| c.is_ascii_digit() || c == '.').len();
        if d > 0 { let v = self.s[..d].parse::<f64>().map_err(|_| No::Bad)?; self.s = &self.s[d..]; return Ok(v); }
        // symbols are single letters, juxtaposed letters would be a product
        let l = self.s.len() - self.s.trim_start_matches(|c: char| c.is_ascii_alphabetic()).len();
        if l == 1 { let n = &self.s[..1]; self.s = &self.s[1..]; if n == "e" { return Ok(std::f64::consts::E); } return self.env.get(n).ok_or(No::Bad); }
        Err(No::Bad)
    }
    /// the rest of a call after its \left
    fn tail1(&mut self, n: &str) -> R { self.need("(")?; let v = self.expr()?; self.need("\\right)")?; known(f1(n, v).ok_or(No::Unknown)?) }
}

/// Unicode
struct Uni<'a> { s: &'a str, env: &'a Env, sym: (&'a str, f64) }
fn sup(c: char) -> Option<u32> { "\u{2070}\u{b9}\u{b2}\u{b3}\u{2074}\u{2075}\u{2076}\u{2077}\u{2078}\u{2079}".chars().position(|d| d == c).map(|p| p as u32) }
impl<'a> Uni<'a> {
    fn ws(&mut self) { self.s = self.s.trim_start_matches(' '); }
    fn eat(&mut self, t: char) -> bool { self.ws(); match self.s.strip_prefix(t) { Some(r) => { self.s = r; true } None => false } }
    fn minus(&mut self) -> bool { self.eat('\u{2212}') || self.eat('-') }
    fn need(&mut self, t: char) -> Result<(), No> { if self.eat(t) { Ok(()) } else { Err(No::Bad) } }
    fn expr(&mut self) -> R {
        let mut v = self.term()?;
        loop { if self.eat('+') { v += self.term()? } else if self.minus() { v -= self.term()? } else { return Ok(v) } }
    }
    fn term(&mut self) -> R {
        let mut v = self.unary()?;
        loop { if self.eat('\u{b7}') { v *= self.unary()? } else if self.eat('/') { v = known(v / self.unary()?)? } else { return Ok(v) } }
    }
    fn unary(&mut self) -> R { if self.minus() { Ok(-self.unary()?) } else { self.power() } }
    fn power(&mut self) -> R {
        let b = self.atom()?;
        // superscripts follow their base immediately
        let neg = self.s.starts_with('\u{207b}');
        let mut r = if neg { &self.s['\u{207b}'.len_utf8()..] } else { self.s };
        let (mut n, mut any) = (0u32, false);
        while let Some(d) = r.chars().next().and_then(sup) { n = n * 10 + d; any = true; r = &r[r.chars().next().unwrap().len_utf8()..]; }
        if neg && !any { return Err(No::Bad); }
        if any { self.s = r; if self.s.starts_with('^') { return Err(No::Bad); } return known(b.powf(if neg { -(n as f64) } else { n as f64 })); }
        if self.eat('^') { let x = self.unary()?; return known(b.powf(x)); }
        Ok(b)
    }
    fn atom(&mut self) -> R {
        if self.eat('(') { let v = self.expr()?; self.need(')')?; return Ok(v); }
        let d = self.s.len() - self.s.trim_start_matches(|c: char| c.is_ascii_digit() || c == '.').len();
        if d > 0 { let v = self.s[..d].parse::<f64>().map_err(|_| No::Bad)?; self.s = &self.s[d..]; return Ok(v); }
        if self.eat('\u{3c0}') { return Ok(std::f64::consts::PI); }
        for (n, g) in GREEK { if let Some(r) = self.s.strip_prefix(g) { self.s = r; return if self.sym.0 == n { Ok(self.sym.1) } else { Err(No::Bad) }; } }
        let l = self.s.len() - self.s.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_').len();
        if l == 0 { return Err(No::Bad); }
        let n = &self.s[..l];
        self.s = &self.s[l..];
        if self.s.starts_with('(') {
            self.need('(')?;
            let mut v = vec![self.expr()?];
            while self.eat(',') { v.push(self.expr()?) }
            self.need(')')?;
            return match v.len() { 1 => known(f1(n, v[0]).ok_or(No::Unknown)?), 2 => known(f2(n, v[0], v[1]).ok_or(No::Unknown)?), _ => Err(No::Unknown) };
        }
        if n == "e" { return Ok(std::f64::consts::E); }
        self.env.get(n).ok_or(No::Bad)
    }
}
fn both(a: T, env: &Env) { both_sym(a, env, ("", 0.0)) }
fn both_sym(a: T, env: &Env, sym: (&str, f64)) {
    if choice(2) == 0 {
        let s = a.e.to_latex();
        let mut r = Tex { s: &s, env, sym };
        let v = r.expr();
        verdict(v, r.s.trim().is_empty(), a.v, &s, 1);
    } else {
        let s = a.e.to_unicode();
        let mut r = Uni { s: &s, env, sym };
        let v = r.expr();
        verdict(v, r.s.trim().is_empty(), a.v, &s, 11);
    }
}
fn verdict(got: R, whole: bool, want: f64, s: &str, id: u32) {
    match got {
        Err(No::Unknown) => { check(thin(), id + 2); skip() }
        Err(No::Bad) => { note(s); check(false, id + 3) }
        Ok(_) if !whole => { note(s); check(false, id + 4) }
        Ok(v) => { check_eq(v, want, id) }
    }
}
fn has_derivative(e: &Expr) -> bool {
    use symb_anafis::visitor::ExprView::*;
    match e.view() {
        Number(_) | Symbol(_) => false,
        Function { args, .. } => args.iter().any(|a| has_derivative(a)),
        Sum(t) | Product(t) => t.iter().any(|a| has_derivative(a)),
        Div(a, b) | Pow(a, b) => has_derivative(a) || has_derivative(b),
        Derivative { .. } => true,
    }
}
harness! {
    h_c24_wraps {
        few(2);
        let env = Env::any();
        let (i, j, k) = (split(PWRAPS), choice(PWRAPS), choice(PLEAVES));
        both(pwrap(i, pwrap(j, pleaf(k, &env), &env), &env), &env);
    }
    h_c24_wraps3_t {
        few(1);
        let env = Env::any();
        let (h, i, j, k) = (split(PWRAPS), split(PWRAPS), choice(PWRAPS), choice(PLEAVES));
        both(pwrap(h, pwrap(i, pwrap(j, pleaf(k, &env), &env), &env), &env), &env);
    }
    h_c24_pairs {
        let env = Env::any();
        let (o, i, j) = (split(8), split(PLEAVES), choice(PLEAVES));
        few(3);
        both(op(o, pleaf(i, &env), pleaf(j, &env)), &env);
    }
    h_c24_wrapped_pairs {
        few(2);
        let env = Env::any();
        let (w, o, i, j) = (split(PWRAPS), choice(8), choice(PLEAVES), choice(4));
        both(pwrap(w, op(o, pleaf(i, &env), pleaf([0, 4, 7, 12][j], &env)), &env), &env);
    }
    h_c24_pow_pairs {
        let env = Env::any();
        let (i, j) = (split(PLEAVES), choice(PLEAVES));
        both(pw(pleaf(i, &env), pleaf(j, &env)), &env);
    }
    h_c24_trees_t {
        few(2);
        let env = Env::any();
        let (o, p, i, j, k) = (split(8), split(8), choice(PLEAVES), choice(PLEAVES), choice(PLEAVES));
        if choice(2) == 0 { both(op(o, op(p, pleaf(i, &env), pleaf(j, &env)), pleaf(k, &env)), &env) }
        else { both(op(o, pleaf(i, &env), op(p, pleaf(j, &env), pleaf(k, &env))), &env) }
    }
    h_c24_numbers {
        let env = Env::any();
        const N: [f64; 20] = [0.0, 1.0, -1.0, 7.0, 1e9, 1e10, -1e10, 12345678901.0, 1e15, 1e16, 1e21, 0.1, -0.1, 1.5, 1e-5, 1e-7, 1.25e-17, 0.30000000000000004, 123456.789, -12.0];
        let n = N[split(20)];
        let (x, y) = (|| sy("x", &env), || sy("y", &env));
        let a = match choice(10) {
            0 => num(n),
            1 => op(2, num(n), x()),
            2 => op(0, x(), num(n)),
            3 => op(1, x(), num(n)),
            4 => op(1, x(), op(2, num(n), y())),
            5 => op(0, op(0, num(n), op(2, num(n), x())), pk(x(), 2.0)),
            6 => { let a = op(2, x(), y()); op(7, a, num(if n == 0.0 { 3.0 } else { n })) }
            7 => g("hh", num(n), x()),
            8 => prod(vec![x(), num(n)]),
            _ => f("uu", op(2, num(n), op(0, x(), y()))),
        };
        both(a, &env);
    }
    h_c24_exponents {
        let env = Env::any();
        const N: [f64; 16] = [0.0, 1.0, 2.0, -1.0, -2.0, 0.5, -0.5, 1.5, 12.0, -12.0, 3.0, 0.25, 998.0, 1001.0, -1500.0, 10.0];
        let n = N[split(16)];
        let x = || sy("x", &env);
        let a = match choice(9) {
            0 => pk(x(), n),
            1 => { let k = choice(PLEAVES); if n.abs() > 20.0 && k != 2 && k != 0 { return } pk(pleaf(k, &env), n) }
            2 => { if n.abs() > 20.0 { return } pk(pk(x(), n), N[choice(12)]) }
            3 => op(7, sy("y", &env), pk(x(), n)),
            4 => op(2, num(c()), pk(x(), n)),
            5 if n.abs() > 20.0 => return,
            5 => op(1, sy("y", &env), pk(x(), n)),
            6 => { if n.abs() > 20.0 { return } pw(num(2.0), op(2, num(n), x())) }
            7 => { if n.abs() > 20.0 { return } pk(sum(vec![num(-1.0), x(), sy("y", &env)]), n) }
            // a polynomial of that degree
            _ => { if n < 2.0 || n != n.floor() || n > 20.0 { return } op(0, op(0, num(c()), op(2, num(c()), pk(x(), n))), x()) }
        };
        both(a, &env);
    }
    h_c24_functions {
        let env = Env::any();
        let k = split(F1.len() + F2.len());
        few(2);
        let a = || pleaf(choice(4) * 2, &env);
        let r = if k < F1.len() { f(F1[k], a()) } else if F2[k - F1.len()] == "hermite" { g("hermite", num(2.0), a()) } else { g(F2[k - F1.len()], a(), sy("y", &env)) };
        let r = match choice(4) { 0 => r, 1 => pk(r, 2.0), 2 => neg(r), _ => op(2, num(-2.0), r) };
        both(r, &env);
    }
    h_c24_results {
        use symb_anafis::{Diff, Simplify, symb};
        few(2);
        let env = Env::any();
        let (i, k, m) = (split(PWRAPS), choice(PLEAVES), choice(2));
        let a = pwrap(i, pleaf(k, &env), &env);
        let r = if m == 0 { Diff::new().differentiate(&a.e, &symb("x")) } else { Simplify::new().simplify(&a.e) };
        let Ok(r) = r else { return };
        // unevaluated derivatives are read by h_c24_derivatives
        if has_derivative(&r) { return; }
        let v = val(&r, &env);
        both(t(r, v), &env);
    }
    h_c24_greek {
        let env = Env::any();
        let n = GREEK[split(5)].0;
        let v = real();
        let s = || t(Expr::symbol(n), v);
        let a = match choice(8) {
            0 => s(),
            1 => op(2, num(c()), s()),
            2 => pk(s(), 2.0),
            3 => op(2, s(), sy("x", &env)),
            4 => f("sin", op(0, s(), sy("x", &env))),
            5 => pw(sy("x", &env), s()),
            6 => op(2, t(Expr::symbol("pi"), std::f64::consts::PI), s()),
            _ => op(0, op(0, num(1.0), s()), pk(s(), 2.0)),
        };
        both_sym(a, &env, (n, v));
    }
    h_c24_derivatives {
        // \frac{\partial^n F}{\partial x^n}: order, variable and the whole of F
        let env = Env::any();
        let n = [1u32, 2, 3, 9, 10, 12][choice(6)];
        let var = ["x", "y", "theta"][choice(3)];
        let inner = match split(7) {
            0 => g("hh", sy("x", &env), sy("y", &env)),
            1 => f("sin", sy("x", &env)),
            2 => op(0, sy("x", &env), sy("y", &env)),
            3 => op(2, sy("x", &env), sy("y", &env)),
            4 => op(7, sy("x", &env), sy("y", &env)),
            5 => op(0, op(0, num(1.0), sy("x", &env)), pk(sy("x", &env), 2.0)),
            _ => neg(sy("x", &env)),
        };
        let d = Expr::derivative(inner.e.clone(), var, n);
        let want_latex = if var == "theta" { "\\theta" } else { var };
        let want_uni = if var == "theta" { "\u{3b8}" } else { var };
        if choice(2) == 0 {
            let s = d.to_latex();
            note(&s);
            let up = match n { 1 => String::new(), 2..=9 => format!("^{n}"), _ => format!("^{{{n}}}") };
            let up2 = match n { 1 => String::new(), _ => format!("^{{{n}}}") };
            let Some(r) = s.strip_prefix("\\frac{\\partial") else { return check(false, 21) };
            let Some(r) = r.strip_prefix(up2.as_str()).or_else(|| r.strip_prefix(up.as_str())) else { return check(false, 22) };
            let end = [format!("}}{{\\partial {want_latex}{up}}}"), format!("}}{{\\partial {want_latex}{up2}}}")];
            let Some(r) = r.strip_suffix(end[0].as_str()).or_else(|| r.strip_suffix(end[1].as_str())) else { return check(false, 23) };
            // the operator takes one factor
            let mut p = Tex { s: r, env: &env, sym: ("", 0.0) };
            let v = p.power();
            verdict(v, p.s.trim().is_empty(), inner.v, r, 24);
        } else {
            let s = d.to_unicode();
            note(&s);
            let up: String = if n == 1 { String::new() } else { n.to_string().bytes().map(|b| "\u{2070}\u{b9}\u{b2}\u{b3}\u{2074}\u{2075}\u{2076}\u{2077}\u{2078}\u{2079}".chars().nth((b - 48) as usize).unwrap()).collect() };
            let up1 = if n == 1 { "\u{b9}".to_string() } else { up.clone() };
            let Some(r) = s.strip_prefix('\u{2202}') else { return check(false, 31) };
            let Some(r) = r.strip_prefix(up1.as_str()).or_else(|| r.strip_prefix(up.as_str())) else { return check(false, 32) };
            let end = [format!("/\u{2202}{want_uni}{up1}"), format!("/\u{2202}{want_uni}{up}")];
            let Some(r) = r.strip_suffix(end[0].as_str()).or_else(|| r.strip_suffix(end[1].as_str())) else { return check(false, 33) };
            let mut p = Uni { s: r, env: &env, sym: ("", 0.0) };
            let v = p.power();
            verdict(v, p.s.trim().is_empty(), inner.v, r, 34);
        }
    }
}
