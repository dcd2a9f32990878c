//! An independent reader of the documented text grammar, straight over bytes, evaluating as it goes.
use super::prim::*;
use super::refm::*;
use std::collections::HashSet;
use std::hash::BuildHasherDefault;
use symb_anafis::Expr;

pub type H = BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
pub fn names(v: &[&str]) -> HashSet<String, H> { v.iter().map(|s| s.to_string()).collect() }

/// outcome of reading: not in the grammar, or outside what this reader gives a value to
#[derive(Clone, Copy, PartialEq)]
pub enum No { Bad, Unknown }
type R = Result<f64, No>;
pub struct Rd<'a> { pub s: &'a [u8], pub i: usize, pub env: &'a Env, pub fixed: &'a [&'a str], pub custom: &'a [&'a str],
    /// the token read last was a number
    pub num: bool }
/// a value that is not finite is left to the properties about evaluation
fn known(v: f64) -> R { if fin(v) { Ok(v) } else { Err(No::Unknown) } }
pub fn alpha(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' }
fn space(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 12) }
impl<'a> Rd<'a> {
    fn at(&mut self) -> Option<u8> {
        while self.i < self.s.len() && space(self.s[self.i]) { self.i += 1; }
        self.s.get(self.i).copied()
    }
    fn expr(&mut self) -> R {
        let mut v = self.term()?;
        loop {
            match self.at() {
                Some(b'+') => { self.i += 1; v += self.term()? }
                Some(b'-') => { self.i += 1; v -= self.term()? }
                _ => return Ok(v),
            }
        }
    }
    fn term(&mut self) -> R {
        let mut v = self.unary()?;
        loop {
            match self.at() {
                Some(b'*') => { self.i += 1; v *= self.unary()? }
                Some(b'/') => { self.i += 1; v = known(v / self.unary()?)? }
                // multiplication by juxtaposition; two numbers side by side are not a product
                Some(c) if c == b'(' || alpha(c) => v *= self.power()?,
                Some(c) if (c.is_ascii_digit() || c == b'.') && !self.num => v *= self.power()?,
                _ => return Ok(v),
            }
        }
    }
    fn unary(&mut self) -> R {
        match self.at() {
            Some(b'-') => { self.i += 1; Ok(-self.unary()?) }
            Some(b'+') => { self.i += 1; self.unary() }
            _ => self.power(),
        }
    }
    fn power(&mut self) -> R {
        let b = self.atom()?;
        match self.at() {
            Some(b'^') => { self.i += 1; let x = self.unary()?; known(b.powf(x)) }
            Some(b'*') if self.s.get(self.i + 1) == Some(&b'*') => { self.i += 2; let x = self.unary()?; known(b.powf(x)) }
            _ => Ok(b),
        }
    }
    fn args(&mut self) -> Result<Vec<f64>, No> {
        self.i += 1; // (
        let mut v = vec![];
        if self.at() == Some(b')') { self.i += 1; return Ok(v); }
        loop {
            v.push(self.expr()?);
            match self.at() { Some(b',') => self.i += 1, Some(b')') => { self.i += 1; return Ok(v) } _ => return Err(No::Bad) }
            // a trailing comma is not an argument
        }
    }
    fn number(&mut self) -> R {
        let (mut m, mut any, mut dot, mut scale) = (0.0, false, false, 0i32);
        while let Some(&c) = self.s.get(self.i) {
            if c.is_ascii_digit() { m = m * 10.0 + (c - b'0') as f64; any = true; if dot { scale -= 1; } }
            else if c == b'.' { if dot { return Err(No::Bad); } dot = true; }
            else if c != b'_' { break; }
            self.i += 1;
        }
        if !any { return Err(No::Bad); }
        let mut ex = 0i32;
        if let Some(b'e' | b'E') = self.s.get(self.i) {
            self.i += 1;
            let neg = match self.s.get(self.i) { Some(b'-') => { self.i += 1; true } Some(b'+') => { self.i += 1; false } _ => false };
            let mut any = false;
            while let Some(&c) = self.s.get(self.i) {
                if c.is_ascii_digit() { ex = ex * 10 + (c - b'0') as i32; any = true; } else if c == b'.' { return Err(No::Bad); } else if c != b'_' { break; }
                self.i += 1;
            }
            if !any { return Err(No::Bad); }
            if neg { ex = -ex; }
        }
        let k = ex + scale;
        let mut p = 1.0;
        for _ in 0..k.abs() { p *= 10.0; }
        Ok(if k < 0 { m / p } else { m * p })
    }
    fn atom(&mut self) -> R {
        let number = matches!(self.at(), Some(c) if c.is_ascii_digit() || c == b'.');
        let v = self.atom0();
        self.num = number;
        v
    }
    fn atom0(&mut self) -> R {
        match self.at() {
            Some(b'(') => {
                self.i += 1;
                let v = self.expr()?;
                if self.at() != Some(b')') { return Err(No::Bad); }
                self.i += 1;
                Ok(v)
            }
            Some(c) if c.is_ascii_digit() || c == b'.' => self.number(),
            Some(c) if alpha(c) => {
                let a = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') { self.i += 1; }
                let id: String = self.s[a..self.i].iter().map(|b| *b as char).collect();
                self.ident(&id)
            }
            _ => Err(No::Bad),
        }
    }
    fn ident(&mut self, id: &str) -> R {
        if self.fixed.contains(&id) { return self.env.get(id).ok_or(No::Unknown); }
        match id { "e" => return Ok(std::f64::consts::E), "pi" => return Ok(std::f64::consts::PI), _ => {} }
        let call = self.at() == Some(b'(');
        if call && (self.custom.contains(&id) || ["sin", "exp", "ln", "sqrt", "atan2", "abs", "cos"].contains(&id)) {
            let v = self.args()?;
            return known(match (id, v.len()) {
                ("sin", 1) => v[0].sin(), ("cos", 1) => v[0].cos(), ("exp", 1) => v[0].exp(), ("ln", 1) => v[0].ln(),
                ("sqrt", 1) => v[0].sqrt(), ("abs", 1) => v[0].abs(), ("atan2", 2) => v[0].atan2(v[1]),
                (f, 1) if self.custom.contains(&f) => f1(f, v[0]).ok_or(No::Unknown)?,
                (f, 2) if self.custom.contains(&f) => f2(f, v[0], v[1]).ok_or(No::Unknown)?,
                (_, 0) => return Err(No::Bad),
                _ => return Err(No::Unknown),
            });
        }
        self.env.get(id).ok_or(No::Unknown)
    }
}
/// the documented repair of unbalanced parentheses
pub fn balanced(s: &[u8]) -> Vec<u8> {
    let (mut o, mut c, mut d, mut low) = (0i32, 0, 0, 0);
    for b in s { if *b == b'(' { o += 1; d += 1 } else if *b == b')' { c += 1; d -= 1; if d < low { low = d } } }
    let mut v = vec![];
    if c > o { for _ in 0..c - o { v.push(b'(') } } else if c == o && low < 0 { v.push(b'(') }
    v.extend_from_slice(s);
    if o > c { for _ in 0..o - c { v.push(b')') } } else if c == o && low < 0 { v.push(b')') }
    v
}
pub fn read(s: &[u8], env: &Env, fixed: &[&str], custom: &[&str]) -> R {
    let b = balanced(s);
    let mut r = Rd { s: &b, i: 0, env, fixed, custom, num: false };
    let v = r.expr()?;
    if r.at().is_some() { return Err(No::Bad); }
    Ok(v)
}
pub fn text(s: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(s) } }
pub fn same(e: &Expr, v: f64, env: &Env) {
    if !fin(v) { skip(); }
    let g = val(e, env);
    if !fin(g) { check(thin(), 3); skip(); }
    check_eq(g, v, 1);
}
/// a byte of the expression alphabet
pub fn any_of(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for c in set { ok |= b == *c; }
    assume(ok);
    b
}
