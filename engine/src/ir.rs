//! LLVM IR text reader: module index (lazy function bodies), types, constants, instruction decoding.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leaf {
    Int(u32),
    Ptr,
    F64,
    F32,
}
impl Leaf {
    pub fn bits(self) -> u32 {
        match self {
            Leaf::Int(w) => w,
            Leaf::Ptr | Leaf::F64 => 64,
            Leaf::F32 => 32,
        }
    }
    pub fn bytes(self) -> u64 {
        match self {
            Leaf::Int(w) => ((w + 7) / 8) as u64,
            Leaf::Ptr | Leaf::F64 => 8,
            Leaf::F32 => 4,
        }
    }
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => ((*n as u64) * t.size()).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n + 7) / 8) as u64,
                _ => (*n as u64) * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return (o, t); }
                    o += t.size();
                }
                panic!("field {i}")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, t),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn leaves(&self) -> Vec<(u64, Leaf)> {
        let mut v = vec![];
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, off: u64, out: &mut Vec<(u64, Leaf)>) {
        match self {
            Ty::Int(w) => out.push((off, Leaf::Int(*w))),
            Ty::Ptr => out.push((off, Leaf::Ptr)),
            Ty::F64 => out.push((off, Leaf::F64)),
            Ty::F32 => out.push((off, Leaf::F32)),
            Ty::Vec(n, t) => {
                for i in 0..*n as u64 { t.leaves_into(off + i * t.size(), out) }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n { t.leaves_into(off + i * t.size(), out) }
            }
            Ty::Struct(ts, _) => {
                for i in 0..ts.len() {
                    let (o, t) = self.field_off(i);
                    t.leaves_into(off + o, out)
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => 1,
            Ty::Vec(n, t) => n * t.nslots(),
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    pub fn lane(&self) -> (u32, Leaf) {
        match self {
            Ty::Int(w) => (1, Leaf::Int(*w)),
            Ty::Ptr => (1, Leaf::Ptr),
            Ty::F64 => (1, Leaf::F64),
            Ty::F32 => (1, Leaf::F32),
            Ty::Vec(n, t) => (*n, t.lane().1),
            _ => (0, Leaf::Int(0)),
        }
    }
}

/// A constant initialiser before address resolution.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    F64(u64),
    F32(u32),
    Null,
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Global(String, i64),
    /// integer expression over addresses: (ptr2int a) - (ptr2int b) + k
    Diff(Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    P(u8),
    Dots,
    End,
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn tokenize(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::with_capacity(32);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'*') => {
                i += 2;
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') { i += 1 }
                i += 2;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' { i += 1 }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' { j += 1 }
                    name = &s[st + 1..j];
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && is_idc(b[j]) { j += 1 }
                    name = &s[st..j];
                    i = j;
                }
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) { j += 1 }
                v.push(Tok::Meta(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) { j += 1 }
                v.push(Tok::Attr(&s[i + 1..j]));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1 }
                v.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1 }
                v.push(Tok::CStr(&s[i + 2..j]));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E'))) { j += 1 }
                v.push(Tok::Num(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) { j += 1 }
                let w = &s[i..j];
                if (w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x")) && w.len() > 3 { v.push(Tok::Num(w)); } else { v.push(Tok::Id(w)); }
                i = j;
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v.push(Tok::End);
    v
}

pub struct P<'a> {
    pub t: Vec<Tok<'a>>,
    pub i: usize,
    pub types: &'a HashMap<String, Ty>,
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> Self {
        P { t: tokenize(s), i: 0, types }
    }
    pub fn peek(&self) -> Tok<'a> { self.t[self.i] }
    pub fn peek_at(&self, k: usize) -> Tok<'a> { *self.t.get(self.i + k).unwrap_or(&Tok::End) }
    pub fn next(&mut self) -> Tok<'a> {
        let t = self.t[self.i];
        if self.i + 1 < self.t.len() { self.i += 1; }
        t
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) { self.next(); true } else { false }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("expected '{}' got {:?} in {:?}", c as char, self.peek(), &self.t[self.i.saturating_sub(12)..self.i + 1]); }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == Tok::Id(s) { self.next(); true } else { false }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    pub fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => matches!(s, "ptr" | "double" | "float" | "void" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80") || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Loc(_) => true,
            _ => false,
        }
    }
    /// skip attribute keywords until the next type
    pub fn skip_to_type(&mut self) {
        while !self.is_type_start() {
            match self.next() {
                Tok::Id("align") | Tok::Id("addrspace") | Tok::Id("alignstack") => { if self.peek() == Tok::P(b'(') { self.skip_parens(); } else { self.next(); } }
                Tok::Id(_) | Tok::Str(_) | Tok::Attr(_) | Tok::P(b'=') => { if self.peek() == Tok::P(b'(') { self.skip_parens(); } }
                x => panic!("skip_to_type {:?} in {:?}", x, &self.t[..]),
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id("ptr") => {
                if self.eat_id("addrspace") { self.skip_parens(); }
                Ty::Ptr
            }
            Tok::Id("double") => Ty::F64,
            Tok::Id("float") => Ty::F32,
            Tok::Id("void") => Ty::Void,
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("half") | Tok::Id("fp128") | Tok::Id("x86_fp80") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap()),
            Tok::P(b'[') => {
                let Tok::Num(n) = self.next() else { panic!() };
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n.parse().unwrap(), Box::new(t))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.eat(b'}') { v.push(self.ty()); self.eat(b','); }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let mut v = vec![];
                    while !self.eat(b'}') { v.push(self.ty()); self.eat(b','); }
                    self.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let Tok::Num(n) = self.next() else { panic!() };
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Box::new(t))
                }
            }
            Tok::Loc(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            x => panic!("type? {:?} in {:?}", x, &self.t[..self.t.len().min(40)]),
        };
        // function type suffix
        if self.peek() == Tok::P(b'(') && matches!(self.peek_at(1), Tok::Id(_) | Tok::P(b')') | Tok::Dots) {
            // only when used as a function type in call: `i64 (i64, ...)`
            let save = self.i;
            self.skip_parens();
            if matches!(self.peek(), Tok::Glob(_) | Tok::Loc(_)) { return t; }
            self.i = save;
        }
        t
    }
    fn is_value_start(&self) -> bool {
        match self.peek() {
            Tok::Loc(_) | Tok::Glob(_) | Tok::Num(_) | Tok::CStr(_) | Tok::Meta(_) => true,
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Id(s) => matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "splat" | "sub" | "add" | "trunc" | "bitcast" | "asm" | "xor"),
            _ => false,
        }
    }
    pub fn skip_param_attrs(&mut self) {
        while !self.is_value_start() {
            match self.peek() {
                Tok::Id("align") => { self.next(); if self.peek() == Tok::P(b'(') { self.skip_parens(); } else { self.next(); } }
                Tok::Id(_) => { self.next(); if self.peek() == Tok::P(b'(') { self.skip_parens(); } }
                Tok::Str(_) => { self.next(); if self.eat(b'=') { self.next(); } }
                _ => return,
            }
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Num(s) => match ty {
                Ty::F64 => Const::F64(parse_float(s)),
                Ty::F32 => {
                    if let Some(h) = s.strip_prefix("f0x") { if h.len() <= 8 { return Const::F32(u32::from_str_radix(h, 16).unwrap()); } }
                    let d = f64::from_bits(parse_float(s));
                    Const::F32((d as f32).to_bits())
                }
                Ty::Int(w) => Const::Int(parse_int(s, *w)),
                _ => panic!("num const for {:?}", ty),
            },
            Tok::Id("true") => Const::Int(1),
            Tok::Id("false") => Const::Int(0),
            Tok::Id("null") => Const::Null,
            Tok::Id("undef") | Tok::Id("poison") => Const::Undef,
            Tok::Id("zeroinitializer") | Tok::Id("none") => Const::Zero,
            Tok::CStr(s) => Const::Bytes(unescape(s)),
            Tok::Glob(g) => Const::Global(g.to_string(), 0),
            Tok::P(b'[') => self.agg_until(b']'),
            Tok::P(b'{') => self.agg_until(b'}'),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let a = self.agg_until(b'}');
                    self.expect(b'>');
                    a
                } else {
                    self.agg_until(b'>')
                }
            }
            Tok::Id("splat") => {
                self.expect(b'(');
                let t = self.ty();
                let c = self.constant(&t);
                self.expect(b')');
                let n = match ty { Ty::Vec(n, _) => *n, _ => panic!() };
                Const::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(s) = self.peek() {
                    if matches!(s, "inbounds" | "nuw" | "nusw" | "inrange") { self.next(); if self.peek() == Tok::P(b'(') && s == "inrange" { self.skip_parens(); } } else { break; }
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.constant(&pt);
                let mut off: i64 = 0;
                let mut cur = Ty::Arr(0, Box::new(t));
                while self.eat(b',') {
                    let it = self.ty();
                    let Const::Int(v) = self.constant(&it) else { panic!("gep const idx") };
                    let w = match it { Ty::Int(w) => w, _ => 64 };
                    let v = sext128(v, w) as i64;
                    match &cur {
                        Ty::Struct(..) => { let (o, t) = cur.field_off(v as usize); off += o as i64; cur = t.clone(); }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => { off += v * t.size() as i64; cur = (**t).clone(); }
                        _ => panic!(),
                    }
                }
                self.expect(b')');
                match base {
                    Const::Global(g, o) => Const::Global(g, o + off),
                    Const::Null => Const::Int(off as u64 as u128),
                    _ => panic!("gep base {:?}", base),
                }
            }
            Tok::Id("ptrtoint") | Tok::Id("ptrtoaddr") | Tok::Id("inttoptr") | Tok::Id("bitcast") => {
                self.expect(b'(');
                let t = self.ty();
                let c = self.constant(&t);
                assert!(self.eat_id("to"));
                let _ = self.ty();
                self.expect(b')');
                c
            }
            Tok::Id("trunc") => {
                self.expect(b'(');
                let t = self.ty();
                let c = self.constant(&t);
                assert!(self.eat_id("to"));
                let t2 = self.ty();
                self.expect(b')');
                let w = match t2 { Ty::Int(w) => w, _ => 64 };
                Const::Trunc(Box::new(c), w)
            }
            Tok::Id("sub") => {
                while let Tok::Id(s) = self.peek() { if matches!(s, "nuw" | "nsw") { self.next(); } else { break; } }
                self.expect(b'(');
                let t = self.ty();
                let a = self.constant(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.constant(&t2);
                self.expect(b')');
                Const::Diff(Box::new(a), Box::new(b))
            }
            x => panic!("const? {:?} ty {:?} in {:?}", x, ty, &self.t[self.i.saturating_sub(8)..(self.i + 3).min(self.t.len())]),
        }
    }
    fn agg_until(&mut self, end: u8) -> Const {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty();
            let c = self.constant(&t);
            v.push((t, c));
            self.eat(b',');
        }
        Const::Agg(v)
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

fn parse_int(s: &str, w: u32) -> u128 {
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).unwrap() & m;
    }
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg() & m
    } else {
        s.parse::<u128>().unwrap() & m
    }
}
fn parse_float(s: &str) -> u64 {
    let (neg, a) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    let sg = if neg { 1u64 << 63 } else { 0 };
    if a == "qnan" || a == "nan" { return 0x7ff8_0000_0000_0000 | sg; }
    if a == "snan" { return 0x7ff4_0000_0000_0000 | sg; }
    if a == "inf" { return 0x7ff0_0000_0000_0000 | sg; }
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("f0x")) {
        u64::from_str_radix(h, 16).unwrap()
    } else {
        s.parse::<f64>().unwrap().to_bits()
    }
}

// ---------------------------------------------------------------- module

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
    pub addr: u64,
    pub weak_undef: bool,
}

pub struct FnEntry {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of the whole define
    pub body: OnceLock<Arc<Func>>,
    pub builtin: OnceLock<u32>,
}

pub struct Module {
    pub src: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub fns: Vec<FnEntry>,
    pub fmap: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub globals_end: u64,
}

pub const GLOBAL_BASE: u64 = 0x10_0000;
pub const FN_BASE: u64 = 0x7f00_0000_0000;
pub const FN_STRIDE: u64 = 16;

fn split_line<'a>(s: &'a str, pos: usize) -> (&'a str, usize) {
    let b = s.as_bytes();
    match b[pos..].iter().position(|&c| c == b'\n') {
        Some(k) => (&s[pos..pos + k], pos + k + 1),
        None => (&s[pos..], s.len()),
    }
}

fn fn_name_in(line: &str) -> String {
    let i = line.find(" @").unwrap() + 2;
    let b = line.as_bytes();
    if b[i] == b'"' {
        let e = line[i + 1..].find('"').unwrap();
        line[i + 1..i + 1 + e].to_string()
    } else {
        let mut j = i;
        while j < b.len() && is_idc(b[j]) { j += 1 }
        line[i..j].to_string()
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut types: HashMap<String, Ty> = HashMap::new();
        let mut type_lines = vec![];
        let mut global_lines: Vec<(usize, usize)> = vec![];
        let mut fns: Vec<FnEntry> = vec![];
        let mut fmap = HashMap::new();
        let mut pos = 0;
        while pos < src.len() {
            let start = pos;
            let (line, np) = split_line(&src, pos);
            pos = np;
            let b0 = line.as_bytes().first().copied().unwrap_or(0);
            match b0 {
                b'@' => global_lines.push((start, start + line.len())),
                b'%' => {
                    if line.contains(" = type ") { type_lines.push(line.to_string()); }
                }
                b'd' if line.starts_with("define") => {
                    let name = fn_name_in(line);
                    // find end "\n}"
                    let e = src[start..].find("\n}").unwrap() + start + 2;
                    fmap.insert(name.clone(), fns.len());
                    fns.push(FnEntry { name, text: Some((start, e)), body: OnceLock::new(), builtin: OnceLock::new() });
                    pos = e + 1;
                }
                b'd' if line.starts_with("declare") => {
                    let name = fn_name_in(line);
                    fmap.insert(name.clone(), fns.len());
                    fns.push(FnEntry { name, text: None, body: OnceLock::new(), builtin: OnceLock::new() });
                }
                _ => {}
            }
        }
        for l in &type_lines {
            // possibly ordered; do two passes for forward references
            let _ = l;
        }
        for _ in 0..3 {
            for l in &type_lines {
                let eq = l.find(" = type ").unwrap();
                let name = l[1..eq].trim_matches('"').to_string();
                let rest = &l[eq + 8..];
                if rest.starts_with("opaque") { continue; }
                let snapshot = types.clone();
                let mut p = P::new(rest, &snapshot);
                let t = p.ty();
                types.insert(name, t);
            }
        }
        let mut globals = vec![];
        let mut gmap = HashMap::new();
        let mut aliases = HashMap::new();
        let mut addr = GLOBAL_BASE;
        for (s, e) in &global_lines {
            let line = &src[*s..*e];
            let mut p = P::new(line, &types);
            let Tok::Glob(name) = p.next() else { panic!() };
            p.expect(b'=');
            let mut external = false;
            let mut weak = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match p.next() {
                    Tok::Id("global") => break,
                    Tok::Id("constant") => { constant = true; break }
                    Tok::Id("alias") => { alias = true; break }
                    Tok::Id("external") => external = true,
                    Tok::Id("extern_weak") => { external = true; weak = true }
                    Tok::Id(_) => { if p.peek() == Tok::P(b'(') { p.skip_parens(); } }
                    x => panic!("global {:?} {}", x, &line[..line.len().min(200)]),
                }
            }
            let ty = p.ty();
            if alias {
                p.expect(b',');
                let t = p.ty();
                if let Const::Global(g, _) = p.constant(&t) { aliases.insert(name.to_string(), g); }
                continue;
            }
            let init = if external { None } else { Some(p.constant(&ty)) };
            let mut align = ty.align();
            while p.peek() != Tok::End {
                if p.eat_id("align") {
                    if let Tok::Num(n) = p.next() { align = n.parse().unwrap(); }
                } else { p.next(); }
            }
            let sz = ty.size().max(1);
            addr = (addr + 16 + align - 1) / align * align;
            gmap.insert(name.to_string(), globals.len());
            globals.push(Global { name: name.to_string(), ty, init, align, constant, addr, weak_undef: weak });
            addr += sz;
        }
        Module { src, types, globals, gmap, fns, fmap, aliases, globals_end: addr }
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(&g) = self.gmap.get(name) {
            if self.globals[g].weak_undef { return 0; }
            return self.globals[g].addr;
        }
        if let Some(&f) = self.fmap.get(name) { return FN_BASE + f as u64 * FN_STRIDE; }
        if let Some(a) = self.aliases.get(name) { return self.sym_addr(a); }
        panic!("unknown symbol {name}")
    }
    pub fn const_val(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::F64(b) => *b as u128,
            Const::F32(b) => *b as u128,
            Const::Null | Const::Undef | Const::Zero => 0,
            Const::Global(g, o) => (self.sym_addr(g).wrapping_add(*o as u64)) as u128,
            Const::Diff(a, b) => (self.const_val(a) as u64).wrapping_sub(self.const_val(b) as u64) as u128,
            Const::Trunc(a, w) => self.const_val(a) & ((1u128 << *w) - 1),
            _ => panic!("const_val {:?}", c),
        }
    }
    /// flatten to slot values
    pub fn const_slots(&self, ty: &Ty, c: &Const, out: &mut Vec<u128>) {
        match (ty, c) {
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Const::Zero | Const::Undef) => {
                for _ in 0..ty.nslots() { out.push(0) }
            }
            (_, Const::Agg(v)) => {
                for (t, c) in v { self.const_slots(t, c, out) }
            }
            (_, Const::Bytes(b)) => {
                for x in b { out.push(*x as u128) }
            }
            _ => out.push(self.const_val(c)),
        }
    }
    /// write initialiser bytes
    pub fn const_bytes(&self, ty: &Ty, c: &Const, buf: &mut [u8]) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => buf[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = ty.field_off(i);
                    let o = o as usize;
                    let n = t.size() as usize;
                    self.const_bytes(t, c, &mut buf[o..o + n]);
                }
            }
            _ => {
                let v = self.const_val(c);
                let n = buf.len().min(16);
                buf[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    pub fn func(&self, i: usize) -> Arc<Func> {
        self.fns[i].body.get_or_init(|| Arc::new(self.parse_fn(i))).clone()
    }
}

// ---------------------------------------------------------------- functions

pub type Op = u32; // reg index, or CONST_BIT | const index
pub const CBIT: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IP { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FP { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, Zext, Sext, FpToSi, FpToUi, SiToFp, UiToFp, FpTrunc, FpExt, Bitcast, PtrInt }

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
pub enum Callee { Direct(usize), Indirect(Op), Nop }

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Op, Ty)>,
    pub dst: u32,
    pub ret: Ty,
    pub normal: Option<u32>, // edge for invoke
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, n: u32, dst: u32, a: Op, b: Op },
    FBin { op: FBin, n: u32, dst: u32, a: Op, b: Op, f32: bool },
    FNeg { n: u32, dst: u32, a: Op, f32: bool },
    ICmp { p: IP, w: u32, n: u32, dst: u32, a: Op, b: Op },
    FCmp { p: FP, n: u32, dst: u32, a: Op, b: Op, f32: bool },
    Select { cn: u32, n: u32, dst: u32, c: Op, a: Op, b: Op, leaves: Box<[Leaf]> },
    Cast { op: CastOp, from: Ty, to: Ty, dst: u32, a: Op },
    Load { dst: u32, p: Op, leaves: Box<[(u64, Leaf)]> },
    Load1 { dst: u32, p: Op, leaf: Leaf },
    Store { v: Op, p: Op, leaves: Box<[(u64, Leaf)]> },
    Store1 { v: Op, p: Op, leaf: Leaf },
    Gep { dst: u32, base: Op, off: i64, idx: Box<[(Op, i64, u32)]> },
    GepC { dst: u32, base: Op, off: i64 },
    Alloca { dst: u32, size: u64, align: u64 },
    Call(Box<CallI>),
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, def: u32, cases: Box<[(u128, u32)]> },
    Ret { v: Op, n: u32 },
    RetVoid,
    Unreachable,
    Copy { dst: u32, a: Op, n: u32 },
    InsertVal { dst: u32, n: u32, agg: Op, v: Op, at: u32, vn: u32 },
    ExtElem { dst: u32, v: Op, n: u32, idx: Op },
    InsElem { dst: u32, v: Op, n: u32, e: Op, idx: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, mask: Box<[i32]> },
    Rmw { op: RmwOp, w: u32, dst: u32, p: Op, v: Op },
    CmpXchg { dst: u32, p: Op, cmp: Op, new: Op, w: u32, leaf: Leaf },
    LoadBits { dst: u32, p: Op, n: u32 },
    StoreBits { v: Op, p: Op, n: u32 },
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Umax, Umin, Max, Min, Nand }

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, u32)>, // (reg, nslots)
    pub nregs: u32,
    pub consts: Vec<u128>,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub ninst: usize,
}

struct FB<'m> {
    m: &'m Module,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
    consts: Vec<u128>,
    cmap: HashMap<Vec<u128>, u32>,
}

impl<'m> FB<'m> {
    fn reg(&mut self, name: &str, ty: &Ty) -> u32 {
        if let Some((r, _)) = self.regs.get(name) { return *r; }
        let r = self.nregs;
        self.nregs += ty.nslots();
        self.regs.insert(name.to_string(), (r, ty.clone()));
        r
    }
    fn konst(&mut self, v: Vec<u128>) -> Op {
        if let Some(&i) = self.cmap.get(&v) { return CBIT | i; }
        let i = self.consts.len() as u32;
        self.consts.extend(v.iter());
        self.cmap.insert(v, i);
        CBIT | i
    }
    fn operand(&mut self, p: &mut P, ty: &Ty) -> Op {
        match p.peek() {
            Tok::Loc(n) => {
                p.next();
                self.reg(n, ty)
            }
            _ => {
                let c = p.constant(ty);
                let mut v = vec![];
                self.m.const_slots(ty, &c, &mut v);
                self.konst(v)
            }
        }
    }
    fn ty_op(&mut self, p: &mut P) -> (Ty, Op) {
        let t = p.ty();
        p.skip_param_attrs();
        let o = self.operand(p, &t);
        (t, o)
    }
}

const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak", "inrange"];
fn skip_flags(p: &mut P) {
    while let Tok::Id(s) = p.peek() {
        if FLAGS.contains(&s) { p.next(); } else { break; }
    }
}

impl Module {
    fn parse_fn(&self, i: usize) -> Func {
        let (s, e) = self.fns[i].text.expect("declared only");
        let text = &self.src[s..e];
        let mut fb = FB { m: self, regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
        // header
        let (hdr, body_start) = split_line(text, 0);
        let mut params = vec![];
        {
            let mut p = P::new(hdr, &self.types);
            p.next();
            p.skip_to_type();
            let _ret = p.ty();
            while !matches!(p.peek(), Tok::Glob(_)) { p.next(); }
            p.next();
            p.expect(b'(');
            let mut unnamed = 0;
            while !p.eat(b')') {
                if p.peek() == Tok::Dots { p.next(); continue; }
                let t = p.ty();
                p.skip_param_attrs();
                let name = if let Tok::Loc(n) = p.peek() { p.next(); n.to_string() } else { unnamed += 1; format!("{}", unnamed - 1) };
                let r = fb.reg(&name, &t);
                params.push((r, t.nslots()));
                p.eat(b',');
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        let mut pos = body_start;
        let mut in_switch = false;
        while pos < text.len() {
            let (l, np) = split_line(text, pos);
            pos = np;
            if l.starts_with('}') { break; }
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') { continue; }
            if in_switch {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if t.starts_with(']') { in_switch = false; }
                continue;
            }
            if t.starts_with("to label") || t.starts_with("catch ") || t == "cleanup" || t.starts_with("filter ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            if t.starts_with("#dbg") { continue; }
            if t.starts_with("switch") && !t.contains(']') { in_switch = true; }
            lines.push(t.to_string());
        }
        // first pass: block labels
        struct RawBlock { label: String, lines: Vec<usize> }
        let mut blocks: Vec<RawBlock> = vec![];
        for (k, l) in lines.iter().enumerate() {
            let lab = label_of(l);
            if let Some(lab) = lab {
                blocks.push(RawBlock { label: lab, lines: vec![] });
            } else {
                if blocks.is_empty() { blocks.push(RawBlock { label: "start-implicit".into(), lines: vec![] }); }
                blocks.last_mut().unwrap().lines.push(k);
            }
        }
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.label.clone(), i)).collect();
        // second pass: decode
        let mut code: Vec<Inst> = vec![];
        let mut block_pc = vec![0u32; blocks.len()];
        // phis: per block: (dst, ty, vec<(op, predlabel)>)
        let mut phis: Vec<Vec<(u32, u32, Vec<(Op, usize)>)>> = (0..blocks.len()).map(|_| vec![]).collect();
        let mut edges_raw: Vec<(usize, usize)> = vec![]; // (pred, succ)
        let mut edge_ix: HashMap<(usize, usize), u32> = HashMap::new();
        let mut edge = |a: usize, b: usize| -> u32 {
            *edge_ix.entry((a, b)).or_insert_with(|| {
                edges_raw.push((a, b));
                (edges_raw.len() - 1) as u32
            })
        };
        for (bi, b) in blocks.iter().enumerate() {
            block_pc[bi] = code.len() as u32;
            for &k in &b.lines {
                let line = &lines[k];
                let mut p = P::new(line, &self.types);
                let mut dname: Option<&str> = None;
                if let (Tok::Loc(n), Tok::P(b'=')) = (p.peek(), p.peek_at(1)) {
                    dname = Some(n);
                    p.next();
                    p.next();
                }
                let Tok::Id(opn) = p.next() else { panic!("inst {}", line) };
                macro_rules! dst { ($ty:expr) => { fb.reg(dname.unwrap(), $ty) } }
                let ins = match opn {
                    "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                        skip_flags(&mut p);
                        let t = p.ty();
                        let a = fb.operand(&mut p, &t);
                        p.expect(b',');
                        let b = fb.operand(&mut p, &t);
                        let (n, l) = t.lane();
                        let op = match opn { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor };
                        Inst::Bin { op, w: l.bits(), n, dst: dst!(&t), a, b }
                    }
                    "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                        skip_flags(&mut p);
                        let t = p.ty();
                        let a = fb.operand(&mut p, &t);
                        p.expect(b',');
                        let b = fb.operand(&mut p, &t);
                        let (n, l) = t.lane();
                        let op = match opn { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem };
                        Inst::FBin { op, n, dst: dst!(&t), a, b, f32: l == Leaf::F32 }
                    }
                    "fneg" => {
                        skip_flags(&mut p);
                        let (t, a) = fb.ty_op(&mut p);
                        let (n, l) = t.lane();
                        Inst::FNeg { n, dst: dst!(&t), a, f32: l == Leaf::F32 }
                    }
                    "icmp" => {
                        skip_flags(&mut p);
                        let Tok::Id(ps) = p.next() else { panic!() };
                        let t = p.ty();
                        let a = fb.operand(&mut p, &t);
                        p.expect(b',');
                        let b = fb.operand(&mut p, &t);
                        let (n, l) = t.lane();
                        let pr = match ps { "eq" => IP::Eq, "ne" => IP::Ne, "ult" => IP::Ult, "ule" => IP::Ule, "ugt" => IP::Ugt, "uge" => IP::Uge, "slt" => IP::Slt, "sle" => IP::Sle, "sgt" => IP::Sgt, "sge" => IP::Sge, _ => panic!("{}", ps) };
                        let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                        Inst::ICmp { p: pr, w: l.bits(), n, dst: dst!(&rt), a, b }
                    }
                    "fcmp" => {
                        skip_flags(&mut p);
                        let Tok::Id(ps) = p.next() else { panic!() };
                        let t = p.ty();
                        let a = fb.operand(&mut p, &t);
                        p.expect(b',');
                        let b = fb.operand(&mut p, &t);
                        let (n, l) = t.lane();
                        let pr = match ps { "false" => FP::False, "oeq" => FP::Oeq, "ogt" => FP::Ogt, "oge" => FP::Oge, "olt" => FP::Olt, "ole" => FP::Ole, "one" => FP::One, "ord" => FP::Ord, "ueq" => FP::Ueq, "ugt" => FP::Ugt, "uge" => FP::Uge, "ult" => FP::Ult, "ule" => FP::Ule, "une" => FP::Une, "uno" => FP::Uno, "true" => FP::True, _ => panic!() };
                        let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                        Inst::FCmp { p: pr, n, dst: dst!(&rt), a, b, f32: l == Leaf::F32 }
                    }
                    "select" => {
                        skip_flags(&mut p);
                        let (ct, c) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (t, a) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, b) = fb.ty_op(&mut p);
                        let cn = ct.nslots();
                        let leaves: Vec<Leaf> = t.leaves().into_iter().map(|x| x.1).collect();
                        Inst::Select { cn, n: t.nslots(), dst: dst!(&t), c, a, b, leaves: leaves.into() }
                    }
                    "trunc" | "zext" | "sext" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                        skip_flags(&mut p);
                        let (t, a) = fb.ty_op(&mut p);
                        if !p.eat_id("to") { panic!("cast {}", line) }
                        let t2 = p.ty();
                        let op = match opn { "trunc" => CastOp::Trunc, "zext" => CastOp::Zext, "sext" => CastOp::Sext, "fptosi" => CastOp::FpToSi, "fptoui" => CastOp::FpToUi, "sitofp" => CastOp::SiToFp, "uitofp" => CastOp::UiToFp, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt, "bitcast" => CastOp::Bitcast, _ => CastOp::PtrInt };
                        let d = dst!(&t2);
                        Inst::Cast { op, from: t, to: t2, dst: d, a }
                    }
                    "load" => {
                        skip_flags(&mut p);
                        let t = p.ty();
                        p.expect(b',');
                        let (_, ptr) = fb.ty_op(&mut p);
                        let l = t.leaves();
                        if let Ty::Vec(n, e) = &t { if **e == Ty::Int(1) { let d = dst!(&t); code.push(Inst::LoadBits { dst: d, p: ptr, n: *n }); continue; } }
                        if l.len() == 1 { Inst::Load1 { dst: dst!(&t), p: ptr, leaf: l[0].1 } } else { Inst::Load { dst: dst!(&t), p: ptr, leaves: l.into() } }
                    }
                    "store" => {
                        skip_flags(&mut p);
                        let (t, v) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, ptr) = fb.ty_op(&mut p);
                        let l = t.leaves();
                        if let Ty::Vec(n, e) = &t { if **e == Ty::Int(1) { code.push(Inst::StoreBits { v, p: ptr, n: *n }); continue; } }
                        if l.len() == 1 { Inst::Store1 { v, p: ptr, leaf: l[0].1 } } else { Inst::Store { v, p: ptr, leaves: l.into() } }
                    }
                    "getelementptr" => {
                        skip_flags(&mut p);
                        let t = p.ty();
                        p.expect(b',');
                        let (_, base) = fb.ty_op(&mut p);
                        let mut off = 0i64;
                        let mut idx = vec![];
                        let mut cur = Ty::Arr(0, Box::new(t));
                        while p.peek() == Tok::P(b',') && !matches!(p.peek_at(1), Tok::Meta(_)) {
                            p.next();
                            let it = p.ty();
                            let w = match it { Ty::Int(w) => w, _ => panic!("vector gep") };
                            let o = fb.operand(&mut p, &it);
                            match cur.clone() {
                                Ty::Struct(..) => {
                                    let v = fb.consts[(o & !CBIT) as usize] as usize;
                                    let (fo, ft) = cur.field_off(v);
                                    off += fo as i64;
                                    cur = ft.clone();
                                }
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    if o & CBIT != 0 {
                                        let v = sext128(fb.consts[(o & !CBIT) as usize], w) as i64;
                                        off = off.wrapping_add(v.wrapping_mul(t.size() as i64));
                                    } else {
                                        idx.push((o, t.size() as i64, w));
                                    }
                                    cur = *t;
                                }
                                _ => panic!("gep {}", line),
                            }
                        }
                        let d = dst!(&Ty::Ptr);
                        if idx.is_empty() { Inst::GepC { dst: d, base, off } } else { Inst::Gep { dst: d, base, off, idx: idx.into() } }
                    }
                    "alloca" => {
                        p.eat_id("inalloca");
                        let t = p.ty();
                        let mut align = t.align();
                        let mut cnt = 1u64;
                        while p.eat(b',') {
                            if p.eat_id("align") {
                                if let Tok::Num(n) = p.next() { align = n.parse().unwrap(); }
                            } else if p.is_type_start() {
                                let t = p.ty();
                                if let Const::Int(v) = p.constant(&t) { cnt = v as u64; } else { panic!("dyn alloca") }
                            } else { p.next(); }
                        }
                        Inst::Alloca { dst: dst!(&Ty::Ptr), size: t.size() * cnt, align }
                    }
                    "br" => {
                        if p.eat_id("label") {
                            let Tok::Loc(l) = p.next() else { panic!() };
                            Inst::Br(edge(bi, bidx[l]))
                        } else {
                            let (_, c) = fb.ty_op(&mut p);
                            p.expect(b',');
                            assert!(p.eat_id("label"));
                            let Tok::Loc(l1) = p.next() else { panic!() };
                            p.expect(b',');
                            assert!(p.eat_id("label"));
                            let Tok::Loc(l2) = p.next() else { panic!() };
                            Inst::CondBr { c, t: edge(bi, bidx[l1]), f: edge(bi, bidx[l2]) }
                        }
                    }
                    "switch" => {
                        let (t, v) = fb.ty_op(&mut p);
                        p.expect(b',');
                        assert!(p.eat_id("label"));
                        let Tok::Loc(ld) = p.next() else { panic!() };
                        let def = edge(bi, bidx[ld]);
                        p.expect(b'[');
                        let mut cases = vec![];
                        while !p.eat(b']') {
                            let ct = p.ty();
                            let Const::Int(c) = p.constant(&ct) else { panic!() };
                            p.expect(b',');
                            assert!(p.eat_id("label"));
                            let Tok::Loc(l) = p.next() else { panic!() };
                            cases.push((c, edge(bi, bidx[l])));
                        }
                        let w = match t { Ty::Int(w) => w, _ => panic!() };
                        Inst::Switch { v, w, def, cases: cases.into() }
                    }
                    "ret" => {
                        let t = p.ty();
                        if t == Ty::Void { Inst::RetVoid } else {
                            p.skip_param_attrs();
                            let v = fb.operand(&mut p, &t);
                            Inst::Ret { v, n: t.nslots() }
                        }
                    }
                    "unreachable" => Inst::Unreachable,
                    "resume" => Inst::Unreachable,
                    "landingpad" => {
                        let t = p.ty();
                        let _ = dst!(&t);
                        Inst::Unreachable
                    }
                    "phi" => {
                        skip_flags(&mut p);
                        let t = p.ty();
                        let d = dst!(&t);
                        let mut v = vec![];
                        loop {
                            p.expect(b'[');
                            let o = fb.operand(&mut p, &t);
                            p.expect(b',');
                            let Tok::Loc(l) = p.next() else { panic!() };
                            p.expect(b']');
                            v.push((o, *bidx.get(l).unwrap_or_else(|| if blocks[0].label == "start-implicit" { &0 } else { panic!("label {}", l) })));
                            if p.peek() == Tok::P(b',') && p.peek_at(1) == Tok::P(b'[') { p.next(); } else { break; }
                        }
                        phis[bi].push((d, t.nslots(), v));
                        continue;
                    }
                    "extractvalue" => {
                        let (t, a) = fb.ty_op(&mut p);
                        let mut cur = t.clone();
                        let mut at = 0u32;
                        while p.eat(b',') {
                            let Tok::Num(n) = p.next() else { break };
                            let n: usize = n.parse().unwrap();
                            for k in 0..n { at += elem_ty(&cur, k).nslots(); }
                            cur = elem_ty(&cur, n);
                        }
                        let n = cur.nslots();
                        Inst::Copy { dst: dst!(&cur), a: a + at, n }
                    }
                    "insertvalue" => {
                        let (t, a) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (vt, v) = fb.ty_op(&mut p);
                        let mut cur = t.clone();
                        let mut at = 0u32;
                        while p.eat(b',') {
                            let Tok::Num(n) = p.next() else { break };
                            let n: usize = n.parse().unwrap();
                            for k in 0..n { at += elem_ty(&cur, k).nslots(); }
                            cur = elem_ty(&cur, n);
                        }
                        Inst::InsertVal { dst: dst!(&t), n: t.nslots(), agg: a, v, at, vn: vt.nslots() }
                    }
                    "extractelement" => {
                        let (t, v) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, idx) = fb.ty_op(&mut p);
                        let Ty::Vec(n, et) = &t else { panic!() };
                        Inst::ExtElem { dst: dst!(et), v, n: *n, idx }
                    }
                    "insertelement" => {
                        let (t, v) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, e) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, idx) = fb.ty_op(&mut p);
                        Inst::InsElem { dst: dst!(&t), v, n: t.nslots(), e, idx }
                    }
                    "shufflevector" => {
                        let (t, a) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, b) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let mt = p.ty();
                        let Ty::Vec(mn, _) = &mt else { panic!() };
                        let mc = p.constant(&mt);
                        let mut mask = vec![];
                        match &mc {
                            Const::Agg(v) => for (_, c) in v { mask.push(match c { Const::Int(v) => *v as i32, _ => -1 }) },
                            _ => for _ in 0..*mn { mask.push(if matches!(mc, Const::Zero) { 0 } else { -1 }) },
                        }
                        let Ty::Vec(n, et) = &t else { panic!() };
                        let rt = Ty::Vec(*mn, et.clone());
                        Inst::Shuffle { dst: dst!(&rt), a, b, n: *n, mask: mask.into() }
                    }
                    "freeze" => {
                        let (t, a) = fb.ty_op(&mut p);
                        Inst::Copy { dst: dst!(&t), a, n: t.nslots() }
                    }
                    "fence" => Inst::Nop,
                    "atomicrmw" => {
                        skip_flags(&mut p);
                        let Tok::Id(o) = p.next() else { panic!() };
                        let op = match o { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "umax" => RmwOp::Umax, "umin" => RmwOp::Umin, "max" => RmwOp::Max, "min" => RmwOp::Min, "nand" => RmwOp::Nand, _ => panic!("rmw {}", o) };
                        let (_, ptr) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (t, v) = fb.ty_op(&mut p);
                        Inst::Rmw { op, w: t.lane().1.bits(), dst: dst!(&t), p: ptr, v }
                    }
                    "cmpxchg" => {
                        skip_flags(&mut p);
                        let (_, ptr) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (t, cmp) = fb.ty_op(&mut p);
                        p.expect(b',');
                        let (_, new) = fb.ty_op(&mut p);
                        let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                        Inst::CmpXchg { dst: dst!(&rt), p: ptr, cmp, new, w: t.lane().1.bits(), leaf: t.lane().1 }
                    }
                    "call" | "tail" | "musttail" | "notail" | "invoke" => {
                        let inv = opn == "invoke";
                        if opn != "call" && !inv { assert!(p.eat_id("call")); }
                        p.skip_to_type();
                        let ret = p.ty();
                        let callee = match p.next() {
                            Tok::Glob(g) => {
                                if g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.assume") || g.starts_with("llvm.dbg") || g.starts_with("llvm.invariant") { Callee::Nop } else {
                                    let g = self.aliases.get(g).map(|s| s.as_str()).unwrap_or(g);
                                    Callee::Direct(*self.fmap.get(g).unwrap_or_else(|| panic!("no fn {}", g)))
                                }
                            }
                            Tok::Loc(n) => Callee::Indirect(fb.reg(n, &Ty::Ptr)),
                            Tok::Id("asm") => Callee::Nop,
                            x => panic!("callee {:?} in {}", x, line),
                        };
                        if let Callee::Nop = callee {
                            if ret != Ty::Void { let _ = dst!(&ret); }
                            Inst::Nop
                        } else {
                            p.expect(b'(');
                            let mut args = vec![];
                            while !p.eat(b')') {
                                let t = p.ty();
                                p.skip_param_attrs();
                                if t == Ty::Other {
                                    // metadata operand
                                    let mut d = 0;
                                    loop {
                                        match p.peek() {
                                            Tok::P(b')') | Tok::P(b',') if d == 0 => break,
                                            Tok::P(b'(') => d += 1,
                                            Tok::P(b')') => d -= 1,
                                            _ => {}
                                        }
                                        p.next();
                                    }
                                } else {
                                    let o = fb.operand(&mut p, &t);
                                    args.push((o, t));
                                }
                                p.eat(b',');
                            }
                            let mut normal = None;
                            if inv {
                                while !p.eat_id("to") { p.next(); }
                                assert!(p.eat_id("label"));
                                let Tok::Loc(l) = p.next() else { panic!() };
                                normal = Some(edge(bi, bidx[l]));
                            }
                            let dst = if ret != Ty::Void { if let Some(n) = dname { fb.reg(n, &ret) } else { let r = fb.nregs; fb.nregs += ret.nslots(); r } } else { 0 };
                            Inst::Call(Box::new(CallI { callee, args, dst, ret, normal }))
                        }
                    }
                    _ => panic!("unknown instruction: {}", line),
                };
                code.push(ins);
            }
        }
        let edges = edges_raw.iter().map(|&(a, b)| {
            let mut moves = vec![];
            for (d, n, v) in &phis[b] {
                let (o, _) = v.iter().find(|(_, l)| *l == a).unwrap_or_else(|| panic!("phi edge in {} from {} to {}", self.fns[i].name, blocks[a].label, blocks[b].label));
                for k in 0..*n { moves.push((d + k, o + k)); }
            }
            Edge { pc: block_pc[b], moves }
        }).collect();
        let ninst = code.len();
        Func { name: self.fns[i].name.clone(), params, nregs: fb.nregs, consts: fb.consts, code, edges, ninst }
    }
}

fn elem_ty(t: &Ty, i: usize) -> Ty {
    match t {
        Ty::Struct(v, _) => v[i].clone(),
        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
        _ => panic!(),
    }
}

fn label_of(l: &str) -> Option<String> {
    // `name:` or `"name":` possibly followed by a comment
    let b = l.as_bytes();
    if b[0] == b'"' {
        let e = l[1..].find('"')? + 1;
        if b.get(e + 1) == Some(&b':') { return Some(l[1..e].to_string()); }
        return None;
    }
    let mut j = 0;
    while j < b.len() && is_idc(b[j]) { j += 1 }
    if j > 0 && j < b.len() && b[j] == b':' { Some(l[..j].to_string()) } else { None }
}
