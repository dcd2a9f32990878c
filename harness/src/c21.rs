//! C21 resource limits, name conflicts and unbound variables.
use super::prim::*;
use super::refm::*;
use super::tgen::*;
use symb_anafis::visitor::ExprView;
use symb_anafis::{CompiledEvaluator, Context, Diff, DiffError, Expr, Simplify, Symbol, UserFunction, diff, simplify, symb};

fn kids(e: &Expr, f: &mut dyn FnMut(&Expr)) {
    match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => {}
        ExprView::Function { args, .. } => for a in args { f(a) },
        ExprView::Sum(t) => for a in t.iter() { f(a) },
        ExprView::Product(t) => for a in t.iter() { f(a) },
        ExprView::Div(a, b) | ExprView::Pow(a, b) => { f(a); f(b) }
        ExprView::Derivative { inner, .. } => f(inner),
    }
}
fn nodes(e: &Expr) -> usize { let mut n = 1; kids(e, &mut |k| n += nodes(k)); n }
fn depth(e: &Expr) -> usize { let mut d = 0; kids(e, &mut |k| d = d.max(depth(k))); d + 1 }
fn vars(e: &Expr) -> Vec<String> {
    let mut v = vec![];
    if let ExprView::Symbol(s) = e.view() { if !["pi", "e"].contains(&&*s) { v.push(s.into_owned()); } }
    kids(e, &mut |k| v.extend(vars(k)));
    v
}
fn subject() -> Expr {
    let (k, w) = (split(LEAVES), split(WRAPS));
    let env = Env::any();
    let b = wrap(w, leaf(k, &env), &env);
    match choice(3) { 0 => b, 1 => op(2, b, leaf(0, &env)), _ => { let q = wrap(1, b.clone(), &env); op(0, op(2, q.clone(), q), b) } }.e
}
harness! {
    h_c21_limits {
        // a symbolic limit on every subject: refused exactly when it is exceeded
        let e = subject();
        let (n, d) = (nodes(&e), depth(&e));
        let lim = int_in(0, 40) as usize;
        match choice(5) {
            0 => match Diff::new().max_depth(lim).skip_simplification(true).differentiate(&e, &symb("x")) {
                Ok(_) => check(d <= lim, 1),
                Err(DiffError::MaxDepthExceeded) => check(d > lim, 2),
                Err(_) => check(false, 4),
            },
            1 => match Diff::new().max_nodes(lim).skip_simplification(true).differentiate(&e, &symb("x")) {
                Ok(_) => check(n <= lim, 5),
                Err(DiffError::MaxNodesExceeded) => check(n > lim, 6),
                Err(_) => check(false, 7),
            },
            2 => {
                // both limits
                let l2 = int_in(0, 40) as usize;
                match Diff::new().max_nodes(lim).max_depth(l2).skip_simplification(true).differentiate(&e, &symb("x")) {
                    Ok(_) => check(n <= lim && d <= l2, 8),
                    Err(DiffError::MaxNodesExceeded) => check(n > lim, 9),
                    Err(DiffError::MaxDepthExceeded) => check(d > l2, 10),
                    Err(_) => check(false, 11),
                }
            }
            3 => if lim < n {
                check(matches!(Simplify::new().max_nodes(lim).simplify(&e), Err(DiffError::MaxNodesExceeded)), 12);
            },
            _ => if lim < d {
                check(matches!(Simplify::new().max_depth(lim).simplify(&e), Err(DiffError::MaxDepthExceeded)), 13);
            },
        }
        reach(1);
    }
    h_c21_simplify_limits {
        // at the limit simplification goes through and keeps the value
        let (k, w) = ([0, 1, 3, 4, 6, 7, 8, 10][split(8)], [0, 1, 5, 6, 9][split(5)]);
        let env = Env::any();
        let s = wrap(w, leafc(k, &env, false), &env);
        let (n, d) = (nodes(&s.e), depth(&s.e));
        let r = match choice(2) { 0 => Simplify::new().domain_safe(true).max_nodes(n).simplify(&s.e), _ => Simplify::new().domain_safe(true).max_depth(d).simplify(&s.e) };
        let r = match r { Ok(r) => r, Err(_) => { check(false, 2); skip() } };
        reach(1);
        let v = val(&r, &env);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, s.v, 1);
    }
    h_c21_fixed {
        // differentiating by a variable declared constant is refused, by any other accepted
        let names = ["x", "y", "z"];
        let mask = int_in(0, 7);
        let v = split(3);
        let mut d = Diff::new().skip_simplification(true);
        let mut fixed = vec![];
        for i in 0..3 { if mask >> i & 1 == 1 { fixed.push(names[i]); } }
        let form = choice(3);
        match form {
            0 => for n in &fixed { d = d.fixed_var(n); },
            1 => d = d.fixed_vars(&fixed),
            _ => for n in &fixed { d = d.fixed_var(&symb(n)); },
        }
        let e = Expr::symbol("x") * Expr::symbol("y") + Expr::symbol("z").pow(2.0);
        let r = d.differentiate(&e, &symb(names[v]));
        let bad = mask >> v & 1 == 1;
        match &r {
            Ok(_) => check(!bad, 1),
            Err(DiffError::VariableInBothFixedAndDiff { var }) => check(bad && var == names[v], 2),
            Err(_) => check(false, 4),
        }
        // the string interface with the same names passed as known symbols
        let r = Diff::new().diff_str("x*y+z^2", names[v], &fixed);
        match &r {
            Ok(s) => check(!bad && s == ["y", "x", "2*z"][v], 5),
            Err(DiffError::VariableInBothFixedAndDiff { var }) => check(bad && var == names[v], 6),
            Err(_) => check(false, 7),
        }
        let r = diff("x*y+z^2", names[v], &fixed, None);
        check(r.is_ok() != bad, 8);
        reach(1);
    }
    h_c21_collision {
        // a name that is both a symbol and a function is refused
        let names = ["ff", "gg", "x"];
        let (fm, sm) = (int_in(0, 3), int_in(0, 7));
        let sy: Vec<&str> = (0..3).filter(|i| sm >> i & 1 == 1).map(|i| names[i]).collect();
        let clash = fm & sm & 3 != 0;
        let mut d = Diff::new();
        let mut s = Simplify::new();
        let mut fs = vec![];
        for i in 0..2 { if fm >> i & 1 == 1 { d = d.user_fn(names[i], UserFunction::new(1..=1)); s = s.user_fn(names[i], UserFunction::new(1..=1)); fs.push(names[i]); } }
        match choice(4) {
            0 => match d.diff_str("t^2", "t", &sy) {
                Ok(r) => check(!clash && r == "2*t", 1),
                Err(DiffError::NameCollision { name }) => check(clash && fs.contains(&&*name) && sy.contains(&&*name), 2),
                Err(_) => check(false, 4),
            },
            1 => match s.simplify_str("t+t", &sy) {
                Ok(r) => check(!clash && r == "2*t", 5),
                Err(DiffError::NameCollision { name }) => check(clash && fs.contains(&&*name) && sy.contains(&&*name), 6),
                Err(_) => check(false, 7),
            },
            2 => {
                // symbols declared on the builder
                for n in &sy { d = d.fixed_var(n); s = s.fixed_var(n); }
                check(matches!(d.diff_str("t^2", "t", &[]), Err(DiffError::NameCollision { .. })) == clash, 8);
                check(matches!(s.simplify_str("t+t", &[]), Err(DiffError::NameCollision { .. })) == clash, 9);
            }
            _ => {
                check(matches!(diff("t^2", "t", &sy, Some(&fs)), Err(DiffError::NameCollision { .. })) == clash, 10);
                check(matches!(simplify("t+t", &sy, Some(&fs)), Err(DiffError::NameCollision { .. })) == clash, 11);
            }
        }
        reach(1);
    }
    h_c21_unbound {
        // compilation succeeds exactly when every variable is a parameter; the value follows the order
        let (k, w) = (split(LEAVES), [0, 1, 5, 7, 9, 10, 11][split(7)]); // opaque functions have no body
        let env = Env::any();
        let s = op(0, wrap(w, leafc(k, &env, false), &env), op(2, leaf(1, &env), t(Expr::symbol("pi"), std::f64::consts::PI)));
        let vs = vars(&s.e);
        let order: &[(&str, f64)] = &[("x", env.x), ("y", env.y), ("z", env.z), ("w", env.w)];
        let mask = int_in(0, 15);
        let mut ps: Vec<(&str, f64)> = (0..4).filter(|i| mask >> i & 1 == 1).map(|i| order[i]).collect();
        match mask % 3 { 0 => {} 1 => ps.reverse(), _ => if !ps.is_empty() { ps.rotate_left(1); } }
        let names: Vec<&str> = ps.iter().map(|p| p.0).collect();
        let vals: Vec<f64> = ps.iter().map(|p| p.1).collect();
        let bound = vs.iter().all(|v| names.contains(&&**v));
        match CompiledEvaluator::compile(&s.e, &names, None) {
            Ok(ev) => {
                check(bound, 2);
                check(ev.param_names().iter().map(|s| &**s).collect::<Vec<_>>() == names && ev.param_count() == names.len(), 4);
                let v = ev.evaluate(&vals);
                if !fin(v) { check(thin(), 3); skip(); }
                check_eq(v, s.v, 1);
            }
            Err(DiffError::UnboundVariable(n)) => check(!bound && vs.contains(&n) && !names.contains(&&*n), 5),
            Err(_) => check(false, 6),
        }
        reach(1);
    }
    h_c21_auto {
        // automatic parameters: exactly the variables, sorted by name
        let (k, w) = (split(LEAVES), split(WRAPS));
        let env = Env::any();
        if w == 3 || w == 4 || w == 13 { skip(); }
        let s = op(0, wrap(w, leaf(k, &env), &env), op(2, leaf(1, &env), t(Expr::symbol("pi"), std::f64::consts::PI)));
        let mut vs = vars(&s.e);
        vs.sort();
        vs.dedup();
        let ev = match s.e.compile() { Ok(e) => e, Err(_) => { check(false, 2); skip() } };
        check(ev.param_names() == &vs[..], 4);
        let vals: Vec<f64> = vs.iter().map(|v| env.get(v).unwrap()).collect();
        let v = ev.evaluate(&vals);
        reach(1);
        if !fin(v) { check(thin(), 3); skip(); }
        check_eq(v, s.v, 1);
    }
    h_c21_own_symbols {
        // anonymous symbols and symbols of a context are variables of their own
        let env = Env::any();
        let form = split(4);
        let c = Context::new();
        let (p, q) = match form { 0 => (Symbol::anon(), Symbol::anon()), 1 => (c.symb("iso_p"), c.symb("iso_q")), 2 => (c.symb("iso_p"), Context::new().symb("iso_p")), _ => (symb("x"), Symbol::anon()) };
        let (a, b) = (coef_in(-2, 2), expo());
        let e = Expr::number(a) * p.to_expr() * q.to_expr() + p.pow(b);
        let ev = match CompiledEvaluator::compile(&e, &[&q, &p], None) { Ok(e) => e, Err(_) => { check(false, 2); skip() } };
        let want = a * env.x * env.y + env.x.powf(b);
        if !fin(want) { skip(); }
        check_eq(ev.evaluate(&[env.y, env.x]), want, 1);
        // one of them unbound (unless the term vanished)
        if a != 0.0 { check(CompiledEvaluator::compile(&e, &[&p], None).is_err(), 4); }
        // derivatives by either
        let d = Diff::new().skip_simplification(choice(2) == 0).differentiate(&e, &p).unwrap();
        let dv = CompiledEvaluator::compile(&d, &[&q, &p], None).unwrap().evaluate(&[env.y, env.x]);
        let want = a * env.y + if b == 0.0 { 0.0 } else { b * env.x.powf(b - 1.0) };
        if !fin(want) { skip(); }
        if !fin(dv) { check(thin(), 3); skip(); }
        check_eq(dv, want, 5);
        let g = symb_anafis::gradient(&e, &[&p, &q]).unwrap();
        check(g.len() == 2, 6);
        let gv = CompiledEvaluator::compile(&g[1], &[&q, &p], None).unwrap().evaluate(&[env.y, env.x]);
        check_eq(gv, a * env.x, 7);
        // declared constant
        check(matches!(Diff::new().fixed_var(&p).differentiate(&e, &p), Err(DiffError::VariableInBothFixedAndDiff { .. })), 8);
        check(Diff::new().fixed_var(&p).differentiate(&e, &symb("y")).is_ok(), 9);
        check(e.compile().is_ok(), 10);
        reach(1);
    }
}
