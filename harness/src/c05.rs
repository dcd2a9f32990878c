//! C05 equality, structural hashes and the canonical order
use super::prim::*;
use super::refm::*;
use super::shapes::*;
use std::collections::{HashMap, HashSet};
use symb_anafis::Expr;

const KINDS: usize = 60;
fn piece(k: usize, a: f64, b: f64) -> Expr {
    let f = |s: &str, e: Expr| Expr::func(s, e);
    match k {
        0 => x(),
        1 => y(),
        2 => n(a),
        3 => n(a) * x(),
        4 => -y(),
        5 => x().pow(2.0),
        6 => x() * y(),
        7 => f("sin", x()),
        8 => n(a) + x(),
        9 => n(a) + n(b) * x() + x().pow(2.0),
        10 => x() / y(),
        11 => n(1.0) / x(),
        12 => y().pow(x()),
        13 => f("sqrt", x()),
        14 => n(a) * f("sin", x()),
        15 => (x() + y()).pow(2.0),
        16 => x().pow(0.5),
        17 => x() - y(),
        18 => n(a) * x() * y(),
        19 => n(b) + f("sin", x()).pow(2.0),
        20 => Expr::func_multi("f", vec![x(), y()]),
        21 => n(-1.0),
        22 => n(b),
        23 => Expr::symbol("e").pow(x()),
        24 => f("exp", x()),
        25 => z() * (n(a) + x()),
        26 => n(a) + n(b) * y() + y().pow(3.0),
        27 => n(a) * x().pow(2.0),
        28 => z(),
        29 => n(a) * (x() + y()),
        30 => x().pow(y()),
        31 => x().pow(-1.0),
        32 => (x() + y()).pow(0.5),
        33 => x() + y(),
        34 => n(1.0) / (x() + y()),
        35 => x().pow(n(a) * y()),
        36 => (x() * y()).pow(0.5),
        37 => x() * y() / z(),
        38 => n(a) * (n(1.0) + x()),
        39 => (n(1.0) + x()).pow(2.0),
        40 => (n(1.0) + x()).pow(y()),
        41 => n(a) * (n(b) + x()).pow(2.0),
        42 => n(b) - x(),
        43 => n(a) * x() + x().pow(3.0),
        44 => n(1.0) + y(),
        45 => f("sin", x()).pow(2.0),
        46 => n(-2.0) * x(),
        47 => f("ln", x() + n(a)),
        48 => f("sin", y()) * x(),
        49 => n(1.0) / f("sin", x()),
        50 => n(b) * x() - y() * z(),
        51 => (n(1.0) + n(a) * x() + x().pow(2.0)).pow(2.0),
        52 => x() / n(2.0),
        53 => z() - x() - y(),
        54 => x().pow(2.0) * y(),
        55 => -(x() * y()),
        56 => Expr::derivative(Expr::func_multi("f", vec![x(), y()]), "x", 1),
        57 => Expr::derivative(Expr::func_multi("f", vec![x(), y()]), "y", 2),
        58 => Expr::func_multi("f", vec![y(), n(a) * x()]),
        _ => n(a) * (n(1.0) + x() + x().pow(2.0)),
    }
}
/// pieces sharing a base, or otherwise close in the order
const NEAR: [usize; 16] = [0, 3, 5, 8, 9, 14, 19, 22, 30, 33, 38, 39, 41, 43, 45, 59];
fn same(a: &Expr, b: &Expr, id: u32) {
    check(a == b, id);
    check(b == a, id + 1);
    check(a.structural_hash() == b.structural_hash(), id + 2);
}
fn join(sum: bool, v: &[(usize, f64, f64)]) -> Expr {
    let p: Vec<Expr> = v.iter().map(|q| piece(q.0, q.1, q.2)).collect();
    if sum { Expr::sum(p) } else { Expr::product(p) }
}
fn order3(sum: bool) {
    let i = split(KINDS);
    let j = choice(KINDS);
    let k = NEAR[[1, 3, 4, 8, 10, 12, 15][choice(7)]];
    let (a, b) = (coef_in(-1, 2), 3.0);
    let (p, q, r) = ((i, a, b), (j, a, b), (k, b, a));
    let e = join(sum, &[p, q, r]);
    same(&e, &join(sum, &[r, q, p]), 1);
    same(&e, &join(sum, &[q, r, p]), 4);
    same(&e, &join(sum, &[q, p, r]), 7);
}
fn close(sum: bool) {
    // many terms close to each other in the order
    let i = split(16);
    let (j, k) = (choice(16), choice(16));
    let (a, b) = ([-1.0, 2.0][choice(2)], coef_in(-1, 2));
    let v = [(NEAR[i], a, b), (NEAR[j], b, a), (NEAR[k], a, a), (NEAR[(i + 5) % 16], a, b), (NEAR[(j + 11) % 16], b, b)];
    let e = join(sum, &v);
    let mut w = v;
    w.reverse();
    same(&e, &join(sum, &w), 1);
    w.rotate_left(2);
    same(&e, &join(sum, &w), 4);
    w.swap(0, 3);
    same(&e, &join(sum, &w), 7);
}
harness! {
    h_c05_sum { order3(true); }
    h_c05_product { order3(false); }
    h_c05_close_sum { close(true); }
    h_c05_close_product { close(false); }
    h_c05_pair {
        // equality of two expressions: consistent with hashing, symmetric, never between different values
        let i = split(KINDS);
        let j = choice(KINDS);
        let (a, b, c, d) = (coef_in(-3, 3), coef_in(-3, 3), coef_in(-3, 3), coef_in(-3, 3));
        let (e, f) = (piece(i, a, b), piece(j, c, d));
        let eq = e == f;
        check((f == e) == eq, 1);
        if eq {
            reach(1);
            check(e.structural_hash() == f.structural_hash(), 2);
            if ![20, 56, 57, 58].contains(&i) {
                let env = Env { x: real(), y: real(), z: real(), w: 0.0 };
                let (u, v) = (val(&e, &env), val(&f, &env));
                if !fin(u) || !fin(v) { skip(); }
                check_eq(u, v, 3);
            }
        }
        // a hashed collection finds one exactly when it is equal to the other
        let mut m: HashMap<Expr, u32> = HashMap::new();
        m.insert(e.clone(), 7);
        check((m.get(&f) == Some(&7)) == eq, 4);
        let set: HashSet<Expr> = [e, f].into_iter().collect();
        check(set.len() == if eq { 1 } else { 2 }, 5);
    }
    h_c05_rebuilt {
        // the same construction gives an equal expression; a different coefficient a different one
        let k = split(KINDS);
        let (a, b, c) = (coef(), coef(), coef());
        let (e, f) = (piece(k, a, b), piece(k, a, b));
        same(&e, &e.clone(), 1);
        same(&e, &f, 4);
        let g = piece(k, c, b);
        // 0*anything and the like lose the other coefficient
        let uses_a = [2, 3, 8, 9, 14, 18, 27, 29, 35, 38, 43, 47, 51, 58, 59].contains(&k);
        if uses_a && a != c { check(e != g, 7); check(g != e, 8); }
        if a == c { same(&e, &g, 9); }
        // wrapped in every kind of node
        let w = |u: Expr| match choice_of(k) { 0 => Expr::func("cos", u), 1 => u.pow(3.0), 2 => z() / (u + z()), 3 => Expr::func_multi("g", vec![z(), u]), _ => n(5.0).pow(u) };
        same(&w(e.clone()), &w(f), 12);
        if uses_a && a != c { check(w(e) != w(g), 15); }
    }
    h_c05_numbers {
        // signed zero, and numbers written in several ways
        let c = coef();
        same(&n(0.0), &n(-0.0), 1);
        same(&n(c), &(n(c) + n(0.0)), 4);
        same(&n(c), &-(n(-c)), 7);
        let d = coef();
        check((n(c) == n(d)) == (c == d), 10);
        check((n(c) * x() == n(d) * x()) == (c == d), 11);
        check((x() + n(c) == x() + n(d)) == (c == d), 12);
        check((x() + n(c) * y() == x() + n(d) * y()) == (c == d), 13);
        check((n(c) + n(d) * x() + x().pow(2.0) == n(d) + n(c) * x() + x().pow(2.0)) == (c == d), 14);
    }
    h_c05_args {
        // arguments, operands of quotients and powers, and derivative orders are not interchangeable
        let i = split(12);
        let j = choice(12);
        let (p, q) = (piece([0, 1, 7, 8, 5, 6, 10, 20, 24, 33, 12, 13][i], 1.0, 2.0), piece([0, 1, 7, 8, 5, 6, 10, 20, 24, 33, 12, 13][j], 1.0, 2.0));
        let eq = i == j;
        check((p == q) == eq, 1);
        let f = |u: &Expr, v: &Expr| Expr::func_multi("f", vec![u.clone(), v.clone()]);
        check((f(&p, &q) == f(&q, &p)) == eq, 2);
        check((p.clone() / n(7.0) / q.clone() == q.clone() / n(7.0) / p.clone()) == eq, 3);
        if i != 11 && j != 11 && !(i >= 4 || j >= 4) { check((p.clone().pow(q.clone()) == q.clone().pow(p.clone())) == eq, 4); }
        check((p.clone() - q.clone() == q.clone() - p.clone()) == eq, 5);
        let (o1, o2) = (1 + choice(3) as u32, 1 + choice(3) as u32);
        let d = |u: &Expr, o: u32| Expr::derivative(Expr::func("h", u.clone()), "x", o);
        check((d(&p, o1) == d(&q, o2)) == (eq && o1 == o2), 6);
        check(Expr::func("sin", p.clone()) != Expr::func("cos", q.clone()), 7);
        check(f(&p, &q) != Expr::func("f", p.clone()), 8);
        let d2 = |u: &Expr| Expr::derivative(Expr::func_multi("h", vec![u.clone(), y()]), "y", o1);
        check((d2(&p) == d2(&q)) == eq, 9);
    }
}
fn choice_of(k: usize) -> usize { k % 5 }
