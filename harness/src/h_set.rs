//! Building grammars: macros, add and merge.
use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use dynparser::parse;
use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, SetOfRules};
use dynparser::*;

const POOL: [&str; 4] = ["main", "a", "b", "main2"];

/// the literal a rule was registered with
fn lit_of(e: &Expression) -> Option<&str> {
    match e {
        Expression::Simple(Atom::Literal(s)) => Some(s.as_str()),
        _ => None,
    }
}
type Model = Vec<(usize, Vec<char>)>;

fn put(m: &mut Model, k: usize, v: Vec<char>) {
    match m.iter().position(|x| x.0 == k) {
        Some(i) => m[i].1 = v,
        None => m.push((k, v)),
    }
}
fn fresh() -> Vec<char> {
    text(1, 'a', 'z')
}
fn piece(n: usize) -> (SetOfRules, Model) {
    let mut s = rules!();
    let mut m = vec![];
    for _ in 0..n {
        let k = choice(POOL.len());
        let v = fresh();
        s = s.add(POOL[k], expr(&G::Lit(v.clone())));
        put(&mut m, k, v);
    }
    (s, m)
}
fn same_set(s: &SetOfRules, m: &Model) {
    check(s.0.len() == m.len(), 1);
    for (k, v) in m {
        match s.0.get(POOL[*k]) {
            Some(e) => check(lit_of(e) == Some(string(v).as_str()), 2),
            None => check(false, 3),
        }
    }
    digest(s.0.len() as u64);
}
/// any sequence of add and merge: the last add counts, on merge the receiver's own rule stays
pub fn c11_history() {
    let (mut s, mut m) = piece(choice(3));
    for _ in 0..param(0) {
        match choice(3) {
            0 => break,
            1 => {
                let k = choice(POOL.len());
                let v = fresh();
                if noting() {
                    note(&format!("add {} {:?}", POOL[k], string(&v)));
                }
                s = s.add(POOL[k], expr(&G::Lit(v.clone())));
                put(&mut m, k, v);
            }
            _ => {
                let (t, n) = piece(1 + choice(param(1)));
                if noting() {
                    note(&format!("merge {:?}", n.iter().map(|x| (POOL[x.0], string(&x.1))).collect::<Vec<_>>()));
                }
                s = s.merge(t);
                for (k, v) in n {
                    if m.iter().all(|x| x.0 != k) {
                        m.push((k, v));
                    }
                }
            }
        }
    }
    reach(1);
    same_set(&s, &m);
}
/// rules added or merged later take part in parsing like those given at once
pub fn c11_parse() {
    let c = Cfg { leaves: L_LIT1 | L_REF | L_DOT, ops: O_AND | O_OR | O_STAR | O_NOT | O_OPT, lo: 'a', hi: 'z' };
    let (g, _) = tree(param(0), &c);
    let x = ch('a', 'z');
    let y = ch('a', 'z');
    let r = G::Or(vec![G::And(vec![l1(x), G::Ref("q")]), l1(x)]);
    let q = l1(y);
    let all = vec![("main", g.clone()), ("r", r.clone()), ("q", q.clone())];
    let s = match choice(4) {
        0 => rules!("main" => expr(&g)).add("q", expr(&q)).add("r", expr(&r)),
        1 => rules!("q" => expr(&q)).merge(rules!("main" => expr(&g), "r" => expr(&r))),
        2 => rules!().merge(set(&all)),
        // what is replaced leaves no trace
        _ => rules!("main" => dot!(), "r" => expr(&r), "q" => dot!())
            .add("main", expr(&g))
            .add("q", expr(&q))
            .merge(rules!("r" => dot!(), "main" => lit!("no"))),
    };
    let inp = input(param(1), &c);
    note_case(&all, &inp);
    let got = parse(&string(&inp), &s);
    match oracle(&all, &inp) {
        Verdict::Accept(t) => {
            reach(1);
            check(got.is_ok(), 1);
            if let Ok(n) = &got {
                check(same_tree(&t, n), 2);
            }
        }
        _ => {
            reach(2);
            check(got.is_err(), 3);
        }
    }
    digest_result(&got);
}
/// many rules: none gets lost when the table grows
pub fn c11_many() {
    let n = [0, 1, 2, 3, 6, 7, 13, 14, 15, 28, 29, 40, 63, 64, 129, 257, 300][choice(17)];
    let k = [0, 1, 3, 7, 14, 30, 64, 130, 256][choice(9)].min(n);
    let t = sparse(n, 'a', 'z');
    let names: Vec<&str> = (0..n).map(name_of).collect();
    let mut a = rules!();
    let mut b = rules!();
    for i in 0..n {
        let e = expr(&l1(t[i]));
        if i < k {
            a = a.add(names[i], e);
        } else {
            b = b.add(names[i], e);
        }
    }
    let s = if flag() { a.merge(b) } else { b.merge(a) };
    check(s.0.len() == n, 1);
    for i in 0..n {
        match s.0.get(names[i]) {
            Some(e) => check(lit_of(e) == Some(string(&t[i..i + 1]).as_str()), 2),
            None => check(false, 3),
        }
    }
    reach(1);
    digest(s.0.len() as u64);
}
/// two large sets that share some names: the receiving one keeps its own
pub fn c11_shared() {
    let sizes: [usize; 10] = [0, 1, 2, 3, 7, 15, 33, 65, 129, 300];
    let (n, m) = (sizes[choice(sizes.len())], sizes[choice(sizes.len())]);
    // n rules in the one, m in the other; the other's begin at the one's number `from`
    let from = match choice(4) {
        0 => 0,
        1 => n / 2,
        2 => n.saturating_sub(1),
        _ => n,
    };
    let (t, u) = (sparse(n, 'a', 'm'), sparse(m, 'n', 'z'));
    let mut a = rules!();
    let mut b = rules!();
    for i in 0..n {
        a = a.add(name_of(i), expr(&l1(t[i])));
    }
    for i in 0..m {
        b = b.add(name_of(from + i), expr(&l1(u[i])));
    }
    let first = flag();
    let s = if first { a.merge(b) } else { b.merge(a) };
    let all = n.max(from + m);
    check(s.0.len() == if m == 0 { n } else { all }, 1);
    for i in 0..all {
        let (in_a, in_b) = (i < n, i >= from && i < from + m);
        let want = if in_a && (first || !in_b) { Some(t[i]) } else if in_b { Some(u[i - from]) } else { None };
        match (s.0.get(name_of(i)), want) {
            (Some(e), Some(c)) => check(lit_of(e) == Some(string(&[c]).as_str()), 2),
            (None, None) => {}
            _ => check(false, 3),
        }
    }
    reach(1);
    digest(s.0.len() as u64);
}
/// every macro builds the expression it names
pub fn c11_macros() {
    let (a, b, c, d, x) = (ch('a', 'z'), ch('a', 'z'), ch('a', 'z'), ch('a', 'z'), ch('a', 'z'));
    let (sa, sb) = (string(&[a]), string(&[b]));
    let min = choice(3);
    let max = min + choice(3);
    let (g, e) = match choice(16) {
        0 => (G::Lit(vec![a, b]), lit!(string(&[a, b]))),
        1 => (G::And(vec![l1(a), l1(b), l1(c)]), and!(lit!(sa), lit!(sb), lit!(c))),
        2 => (G::Or(vec![l1(a), l1(b), l1(c)]), or!(lit!(sa), lit!(sb), lit!(c))),
        3 => (G::And(vec![not(l1(a)), G::Dot]), and!(not!(lit!(sa)), dot!())),
        4 => (G::Rep(Box::new(l1(a)), min, None), rep!(lit!(sa), min)),
        5 => (G::Rep(Box::new(l1(a)), min, Some(max)), rep!(lit!(sa), min, max)),
        6 => (G::Class(vec![a, b], vec![]), ematch!(chlist &string(&[a, b]), from2 vec![])),
        7 => (G::Class(vec![], vec![(a, b)]), ematch!(chlist "", from a, to b)),
        8 => (G::Class(vec![x], vec![(a, b), (c, d)]), ematch!(chlist &string(&[x]), from a, to b, from c, to d)),
        9 => (G::Class(vec![x], vec![(a, b), (c, d)]), ematch!(chlist &string(&[x]), from2 vec![(a, b), (c, d)])),
        10 => (
            G::Class(vec![], vec![(a, a), (b, b), (c, d), (x, x)]),
            ematch!(chlist "", from a, to a, from b, to b, from c, to d, from x, to x),
        ),
        11 => (G::And(vec![l1(a), G::Eof]), and!(lit!(sa), eof!())),
        12 => (G::Or(vec![l1(a), G::Error(vec![b])]), or!(lit!(sa), error!(sb))),
        13 => (G::Ref("r"), ref_rule!("r")),
        14 => (G::And(vec![G::Ref("r"), star(G::Ref("q"))]), and!(ref_rule!("r"), rep!(ref_rule!("q"), 0))),
        _ => (G::And(vec![]), and!()),
    };
    let all = vec![("main", g), ("r", l1(a)), ("q", G::Or(vec![l1(b), l1(c)]))];
    let s = rules!("main" => e, "r" => lit!(string(&[a])), "q" => or!(lit!(b), lit!(c)));
    let inp = text(choice(param(0) + 1), 'a', 'z');
    note_case(&all, &inp);
    let got = parse(&string(&inp), &s);
    match oracle(&all, &inp) {
        Verdict::Accept(t) => {
            reach(1);
            check(got.is_ok(), 1);
            if let Ok(n) = &got {
                check(same_tree(&t, n), 2);
            }
        }
        Verdict::Fail(f) => {
            reach(2);
            check(got.is_err(), 3);
            if let (Err(e), Some(t)) = (&got, &f.text) {
                check(e.descr.as_str() == string(t).as_str(), 4);
            }
        }
        _ => check(got.is_err(), 5),
    }
    digest_result(&got);
}
/// names that differ in one respect only stay apart
pub fn c11_names() {
    let (i, j) = (choice(ODD_NAMES.len()), choice(ODD_NAMES.len()));
    let (a, b) = (ODD_NAMES[i], ODD_NAMES[j]);
    let (x, y) = (ch('a', 'z'), ch('a', 'z'));
    let e = |c: char| expr(&l1(c));
    let (s, first) = match choice(4) {
        0 => (rules!().add(a, e(x)).add(b, e(y)), y),
        1 => (rules!(a => e(x)).merge(rules!(b => e(y))), x),
        2 => (rules!(a => e(x), b => e(y)), y),
        _ => (rules!(a => e(y)).merge(rules!(b => e(x)).add(a, e(x))).add(a, e(x)).add(b, e(y)), y),
    };
    let n = if i == j { 1 } else { 2 };
    check(s.0.len() == n, 1);
    // the rule put under b
    let want = if i == j { first } else { y };
    match s.0.get(b) {
        Some(e) => check(lit_of(e) == Some(string(&[want]).as_str()), 2),
        None => check(false, 3),
    }
    if i != j {
        match s.0.get(a) {
            Some(e) => check(lit_of(e) == Some(string(&[x]).as_str()), 4),
            None => check(false, 5),
        }
    }
    // and that is what is parsed
    let t = s.add("main", ref_rule!(b));
    if b != "main" {
        let z = ch('a', 'z');
        let r = parse(&string(&[z]), &t);
        if z == want {
            reach(1);
            check(r.is_ok(), 6);
        } else {
            reach(2);
            check(r.is_err(), 7);
        }
    }
    digest(n as u64);
}
