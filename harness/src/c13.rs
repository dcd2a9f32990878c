//! C13 the parser is total and its error spans lie in the input (panics, overflows and endless loops are
//! reported by the engine itself on any path).
use super::reader::{any_of, names, text};
use super::prim::*;
use symb_anafis::{DiffError, parse};

fn probe(s: &[u8], fixed: &[&str], custom: &[&str]) {
    let t = text(s);
    match parse(t, &names(fixed), &names(custom), None) {
        Ok(_) => reach(1),
        Err(e) => {
            let (span, what) = match &e {
                DiffError::InvalidNumber { value, span } => (*span, Some(value.as_str())),
                DiffError::InvalidToken { token, span } => (*span, Some(token.as_str())),
                DiffError::UnexpectedToken { span, .. } | DiffError::InvalidSyntax { span, .. } | DiffError::AmbiguousSequence { span, .. } => (*span, None),
                _ => (None, None),
            };
            if let Some(sp) = span {
                let (a, b) = (sp.start(), sp.end());
                check(a <= b && b <= t.len(), 1);
                if a > b || b > t.len() { return; }
                check(t.is_char_boundary(a) && t.is_char_boundary(b), 2);
                if !(t.is_char_boundary(a) && t.is_char_boundary(b)) { return; }
                // the quoted text is what the span covers
                if let Some(w) = what { check(&t[a..b] == w, 3); }
            }
            check(!e.to_string().is_empty(), 4);
        }
    }
}
fn ascii() -> u8 { let b = byte(); assume(b < 128); b }
/// everything that is not a letter or digit, one letter, and symbolic digits
fn few() -> u8 {
    let b = byte();
    assume(b < 128);
    assume(!b.is_ascii_alphabetic() || b == b'x' || b == b'e');
    b
}
const WIDE: [&str; 9] = ["\u{3c0}", "\u{2202}", "\u{e9}", "\u{20ac}", "\u{b2}", "\u{1d6fc}", "\u{a0}", "\u{663}", "\u{1f600}"];
fn unit(k: usize, out: &mut Vec<u8>) { if k < WIDE.len() { out.extend_from_slice(WIDE[k].as_bytes()) } else { out.push(few()) } }
fn holes(t: &str) -> Vec<u8> {
    t.bytes().map(|c| match c { b'?' => few(), b'~' => any_of(b"()_,/^ x1"), b'#' => any_of(b"0123456789.eE+-_"), c => c }).collect()
}
harness! {
    h_c13_ascii1 { let s = [ascii()]; probe(&s, &[], &[]); }
    h_c13_ascii2 { let a = ascii(); let b = few(); if choice(2) == 0 { probe(&[a, b], &[], &[]) } else { probe(&[b, a], &["x"], &["x"]) } }
    h_c13_ascii3 {
        const C: [&[u8]; 8] = [b"(", b")", b".", b"0123456789", b"xe_", b"+-*/^,", b" \t\n\r", b"!#$&;<>@[]{}|~\"'\\`?:%="];
        let s = [any_of(C[split(8)]), few(), few()];
        probe(&s, &[], &["x"]);
    }
    h_c13_wide {
        let (i, j) = (split(10), split(10));
        let mut s = vec![];
        unit(i, &mut s);
        unit(j, &mut s);
        if choice(2) == 1 { s.push(few()); } else { s.insert(0, few()); }
        probe(&s, &[], &[]);
    }
    h_c13_wide3 {
        let (i, j, k) = (split(10), split(10), choice(9));
        let mut s = vec![];
        unit(i, &mut s);
        unit(j, &mut s);
        unit(k, &mut s);
        probe(&s, &["\u{e9}"], &["\u{3c0}"]);
    }
    h_c13_number { let s = match split(4) { 0 => holes("####"), 1 => holes("1#e##"), 2 => holes("##.#)"), _ => holes("#e#+#") }; probe(&s, &[], &[]); }
    h_c13_number5_t { let s = holes(["#####", "x)#####", "######"][split(3)]); probe(&s, &[], &[]); }
    h_c13_derivative {
        const T: [&str; 14] = ["\u{2202}~f(x)/\u{2202}_x", "\u{2202}_~(x)/\u{2202}_x", "\u{2202}_f~x)/\u{2202}_x", "\u{2202}_f(x~/\u{2202}_x", "\u{2202}_f(x)~\u{2202}_x", "\u{2202}_f(x)/~_x", "\u{2202}_f(x)/\u{2202}~x", "\u{2202}_f(x)/\u{2202}_~", "\u{2202}_f(x)/\u{2202}_x~~", "\u{2202}^~_f(x)/\u{2202}_x^~", "\u{2202}~~", "\u{2202}_f(\u{2202}_f(x)/\u{2202}_x~)/\u{2202}_x", "\u{2202}_f/\u{2202}_x~\u{2202}", "\u{2202}^999999999~_f(x)/\u{2202}_x"];
        let s = holes(T[split(14)]);
        probe(&s, &[], &["f"]);
    }
    h_c13_calls {
        const T: [&str; 16] = ["sin(?", "sin?x)", "xsin(?)", "f(?)", "f?x)", "atan2(?,?)", "pi?x", "e?(x)", "\u{e9}sin(?)", "x_?(x)", "(?)(?)", "((?", "?))", ")?(", ")?\u{20ac}(", "x))+?"];
        let s = holes(T[split(16)]);
        probe(&s, &["x"], &["f"]);
    }
    h_c13_ascii4_t { let s = [few(), few(), few(), few()]; probe(&s, &[], &[]); }
}
