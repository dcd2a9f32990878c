//! C12 parsed text denotes its standard reading. The text is made of symbolic bytes; an independent reader
//! (recursive descent straight over the bytes, evaluating as it goes) gives the value of the documented grammar.
use super::prim::*;
use super::refm::*;
use super::shapes::{F1, F2};
use super::reader::*;
use symb_anafis::{Expr, parse};

/// text `s` is accepted exactly when the grammar reads it, with the value of that reading
pub fn agree(s: &[u8], fixed: &[&str], custom: &[&str]) {
    let env = Env::any();
    let got = parse(text(s), &names(fixed), &names(custom), None);
    match (got, read(s, &env, fixed, custom)) {
        (_, Err(No::Unknown)) => skip(),
        (Ok(_), Err(No::Bad)) => check(false, 4),
        (Err(_), Err(No::Bad)) => {}
        (Err(_), Ok(_)) => check(false, 5),
        (Ok(e), Ok(v)) => same(&e, v, &env),
    }
}
pub const ALL: &[u8] = b"0123456789.xye+-*/^(), ";
/// classes of first bytes, explored as separate tasks
const FIRST: [&[u8]; 10] = [b"01234", b"56789", b".+", b"x", b"y", b"e", b"-", b"( ", b"*/^", b"),"];
/// text with holes: '?' any operator or blank, '_' blank or '(' or sign, '~' blank or ')', '#' digit
fn template(t: &[u8]) -> Vec<u8> {
    t.iter().map(|c| match c {
        b'?' => any_of(b"+-*/^ "),
        b'_' => any_of(b" (-"),
        b'[' => any_of(b" ("),
        b'~' => any_of(b" )"),
        b'#' => any_of(b"0123456789"),
        c => *c,
    }).collect()
}
fn chosen(ts: &[&[u8]]) -> Vec<u8> { template(ts[split(ts.len())]) }
harness! {
    h_c12_len2 { let s = [any_of(FIRST[split(10)]), any_of(ALL)]; agree(&s, &[], &[]); }
    h_c12_len3 { let s = [any_of(FIRST[split(10)]), any_of(ALL), any_of(ALL)]; agree(&s, &[], &[]); }
    h_c12_len4 { let s = [any_of(FIRST[split(10)]), any_of(b"0.xe+-*^() "), any_of(b"1xy*/^-(), "), any_of(b"2xe+-) .")]; agree(&s, &[], &[]); }
    h_c12_all4_t { let s = [any_of(FIRST[split(10)]), any_of(ALL), any_of(ALL), any_of(ALL)]; agree(&s, &[], &[]); }
    h_c12_len5_t { let s = [any_of(FIRST[split(10)]), any_of(ALL), any_of(ALL), any_of(ALL), any_of(ALL)]; agree(&s, &[], &[]); }
    h_c12_number {
        // d.d, d.d e±d
        let d = || any_of(b"0123456789");
        match split(6) {
            0 => agree(&[d(), d(), d(), d()], &[], &[]),
            1 => agree(&[d(), d(), b'.', d(), d()], &[], &[]),
            2 => agree(&[d(), b'.', d(), any_of(b"eE"), any_of(b"+-"), any_of(b"0123")], &[], &[]),
            3 => agree(&[d(), any_of(b"._"), d(), any_of(b"*+-/ "), b'x'], &[], &[]),
            4 => agree(&[any_of(b".x-"), d(), any_of(b"e."), any_of(b"01+-"), any_of(b"12 ")], &[], &[]),
            _ => agree(&[b'x', any_of(b"*/"), d(), b'.', d(), d(), any_of(b"+-*"), b'y'], &[], &[]),
        }
    }
    h_c12_three {
        // three operands, any operators, signs and parentheses between them
        let s = chosen(&[b"_x?_y?_z", b"[x?y~?z~", b"[x?[y?z~~", b"_x~?_y~?z", b"x?_y~?_#", b"_#?x?_y~", b"-x?-y?-z", b"[x?y?[z?x"]);
        agree(&s, &[], &[]);
    }
    h_c12_four_paren_t {
        let s = chosen(&[b"[x?[y?[z?w~~~", b"_x?_y?_z?_w", b"[x?y~?[z?w~", b"x?[y?[z?w~~"]);
        agree(&s, &[], &[]);
    }
    h_c12_four { let s = chosen(&[b"x?y?z?w", b"[x?y?z~?w", b"x?[y?z?w~", b"-x?y?-z?w"]); agree(&s, &[], &[]); }
    h_c12_starpow { let s = chosen(&[b"x**y?z", b"x?y**z", b"x**y**z", b"-x**#", b"x**-y?z", b"x* *y", b"#**#?x", b"x***y"]); agree(&s, &[], &[]); }
    h_c12_implicit {
        let s = chosen(&[b"#x?y", b"x?#y", b"x^#y", b"#(x?y)", b"(x?y)#", b"(x?y)(z?w)", b"x y?z", b"x #?y", b"#x y", b"x(y?z)", b"-#x?y", b"#x^#y", b"x/#y", b"(x)y?z", b"# #", b"x# ", b"#e", b"# e", b"e x?y", b"pi x?y", b"#pi?x", b"(x)#?y", b"#.x", b"x(y)z"]);
        agree(&s, &[], &[]);
    }
    h_c12_calls {
        let s = chosen(&[b"sin(x)?y", b"#sin(x?y)", b"sin(x)^#", b"-sin(x)^#", b"x sin(y)?z", b"(x)sin(y)", b"sin(x)cos(y)", b"sin(x)(y)", b"sin(x)#", b"exp(x?y)", b"sqrt(x)?y", b"abs(-x)?y", b"sin (x)", b"sin(sin(x)?y)", b"atan2(x?y,z)", b"atan2(x,y?z)", b"ln(x,)", b"sin()", b"sin(x", b"sin x", b"sin", b"x)?y", b"(x?y", b")x(", b"sin(x))?y", b"sin((x)?y", b"2^sin(x)", b"x^sin(y)z", b"x^sin(y)^#"]);
        agree(&s, &[], &[]);
    }
    h_c12_custom {
        let s = chosen(&[b"uu(x)?y", b"#uu(x?y)", b"uu(x)^#", b"vv(x,y)?z", b"vv(x?y,z)", b"vv(uu(x),y)", b"uu(vv(x,y)?z)", b"x uu(y)", b"uu(x)vv(y,z)", b"(x)uu(y)?z", b"uu(x", b"uu (x)?y", b"-uu(-x)?y", b"x?uu(y)?z"]);
        agree(&s, &[], &["uu", "vv"]);
    }
    h_c12_fixed {
        // declared names win over constants, functions and splitting
        let s = chosen(&[b"x?y", b"#x?y", b"x(y?z)", b"x y", b"(x)y", b"w?x", b"sin(x)?w"]);
        agree(&s, &["x", "y", "z", "w"], &[]);
    }
    h_c12_splitting {
        // names that are split: text, declared names, functions, value
        let env = Env::any();
        let (x, y, z, w) = (env.x, env.y, env.z, env.w);
        type Row<'a> = (&'a str, &'a [&'a str], &'a [&'a str], f64);
        let rows: [Row; 22] = [
            ("xsin(y)", &[], &[], x * y.sin()),
            ("xexp(y)", &[], &[], x * y.exp()),
            ("xy", &["x"], &[], x * y),
            ("xyz", &["x", "y"], &[], x * y * z),
            ("xyz^2", &["x", "y"], &[], x * y * z * z),
            ("2xy", &["x"], &[], 2.0 * x * y),
            ("xysin(z)", &["x"], &[], x * y * z.sin()),
            ("xpi", &["x"], &[], x * std::f64::consts::PI),
            ("xe", &["x"], &[], x * std::f64::consts::E),
            ("x y sin(z)", &["x"], &[], x * y * z.sin()),
            ("xsin(y)cos(z)", &[], &[], x * y.sin() * z.cos()),
            ("\u{3c0}*x", &[], &[], std::f64::consts::PI * x),
            ("2\u{3c0}x", &[], &[], 2.0 * std::f64::consts::PI * x),
            ("\u{3c0}^2", &[], &[], std::f64::consts::PI * std::f64::consts::PI),
            ("xasin(y)", &[], &[], x * y.asin()),
            ("xsinh(y)", &[], &[], x * y.sinh()),
            ("xatan2(y, z)", &[], &[], x * y.atan2(z)),
            ("x\t+\ny", &[], &[], x + y),
            ("  x  ", &[], &[], x),
            ("x--y", &[], &[], x + y),
            ("x-+-y", &[], &[], x + y),
            ("w - x - y - z + 1 - 2", &[], &[], w - x - y - z - 1.0),
        ];
        let r = rows[split(22)];
        note(r.0);
        match parse(r.0, &names(r.1), &names(r.2), None) { Ok(e) => same(&e, r.3, &env), Err(_) => check(false, 5) }
    }
    h_c12_functions {
        // every built-in name is read as that function of its arguments
        let env = Env::any();
        let k = split(F1.len() + F2.len());
        let (n, v, t) = if k < F1.len() { let n = F1[k]; (n, f1(n, env.x), format!("{n}(x)")) } else { let n = F2[k - F1.len()]; (n, f2(n, env.x, env.y), format!("{n}(x,y)")) };
        note(n);
        let Some(v) = v else { return };
        if !fin(v) { skip(); }
        match parse(&t, &names(&[]), &names(&[]), None) { Ok(e) => same(&e, v, &env), Err(_) => check(false, 5) }
    }
    h_c12_derivative {
        // derivative notation: order, function, arguments and variable are the written ones, and what follows is kept
        use symb_anafis::visitor::ExprView;
        let (f, var, args) = [("f", "x", "x"), ("f_1", "x", "x,y"), ("g", "x_1", "x_1"), ("f", "y", "sin(x+y)"), ("f", "x", "2x y"), ("h2", "z", "(x)(z)")][split(6)];
        let k = choice(4);
        let d = any_of(b"0123456789");
        let n = (d - b'0') as u32;
        let o = [String::new(), format!("^{}", d as char), format!("^{}", d as char), String::new()][k].clone();
        let o2 = [String::new(), format!("^{}", d as char), String::new(), format!("^{}", d as char)][k].clone();
        let core = format!("\u{2202}{o}_{f}({args})/\u{2202}_{var}{o2}");
        let t = match choice(3) { 0 => core.clone(), 1 => format!("sin({core})"), _ => format!("({core})*x") };
        let got = parse(&t, &names(&["x", "y", "z", "x_1"]), &names(&["f", "g", "f_1", "h2"]), None);
        let want = if k == 1 || k == 2 { n } else { 1 };
        let Ok(e) = got else { check(k == 3 && n != 1, 5); return };
        if k == 3 { check(n == 1, 4); }
        fn find(e: &Expr) -> Option<(String, String, u32, Expr)> {
            match e.view() {
                ExprView::Derivative { inner, var, order } => Some((inner.to_string(), var.to_string(), order, inner.clone())),
                ExprView::Function { args, .. } => args.iter().find_map(|a| find(a)),
                ExprView::Product(v) => v.iter().find_map(|a| find(a)),
                _ => None,
            }
        }
        match find(&e) {
            Some((_, v, ord, inner)) => {
                check(v == var, 1);
                check(ord == want, 2);
                match inner.view() {
                    ExprView::Function { name, args: a } => {
                        check(&*name == f, 6);
                        let env = Env::any();
                        let rd = |t: &str| read(t.as_bytes(), &env, &["x", "y", "z", "x_1"], &[]);
                        let parts: Vec<&str> = args.split(',').collect();
                        check(parts.len() == a.len(), 7);
                        for (p, q) in parts.iter().zip(a.iter()) { if let Ok(v) = rd(p) { same(q, v, &env); } }
                    }
                    _ => check(false, 8),
                }
            }
            None => check(false, 9),
        }
    }
}
