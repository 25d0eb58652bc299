//! Repetition counts and atoms.
use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use dynparser::ast::Node;
use dynparser::parse;

fn children<'a>(n: &'a Node, name: &str) -> Option<&'a [Node]> {
    match n {
        Node::Rule((x, v)) if x.as_str() == name => Some(v),
        _ => None,
    }
}

// ------------------------------------------------------------------ C02 repetition

/// rep(body, min, max) over `k` matches of the body followed by `tail`: takes exactly
/// min(k, max) of them if that reaches min, fails otherwise
fn c02(body: G, unit: &[char], per: usize, k: usize, tail: &[char], min: usize, max: Option<usize>) {
    let rules = vec![
        ("main", G::And(vec![G::Ref("r"), star(G::Dot)])),
        ("r", G::Rep(Box::new(body), min, max)),
    ];
    let mut inp = vec![];
    for _ in 0..k {
        inp.extend(unit.iter().copied());
    }
    inp.extend(tail.iter().copied());
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    let capped = match max {
        Some(m) if m < k => m,
        _ => k,
    };
    if capped >= min {
        let capped = concretize(capped as u64) as usize;
        reach(1);
        check(r.is_ok(), 1);
        if let Ok(n) = &r {
            let main = children(n, "main");
            check(main.is_some(), 2);
            let main = main.unwrap();
            check(main.len() == 1 + (k - capped) * unit.len() + tail.len(), 3);
            let rr = children(&main[0], "r");
            check(rr.is_some(), 4);
            check(rr.unwrap().len() == capped * per, 5);
        }
    } else {
        reach(2);
        check(r.is_err(), 6);
    }
    digest_result(&r);
}

/// any 64-bit minimum and maximum
pub fn c02_symbolic() {
    let k = choice(param(0) + 1);
    let min = bits(64) as usize;
    let max = if flag() {
        let m = bits(64) as usize;
        assume(min <= m);
        Some(m)
    } else {
        None
    };
    let x = ch('a', 'y');
    let y = ch('a', 'y');
    let (body, unit, per) = match choice(6) {
        0 => (l1(x), vec![x], 1),
        1 => (class('a', x), vec!['a'], 1),
        2 => (G::Lit(vec![x, y]), vec![x, y], 1),
        3 => (G::And(vec![l1(x), l1(y)]), vec![x, y], 2),
        4 => (G::Or(vec![G::And(vec![l1(x), lit("!")]), l1(x)]), vec![x], 1),
        _ => (G::And(vec![not(lit("z")), G::Dot]), vec![x], 1),
    };
    let tail = if flag() { vec!['z'] } else { vec![] };
    // 'z' never continues the body
    c02(body, &unit, per, k, &tail, min, max);
}
/// long runs, one bound symbolic
pub fn c02_long() {
    let k = [0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257][choice(param(0))];
    let x = ch('a', 'y');
    let (min, max) = match choice(3) {
        0 => (any_size(k), None),
        1 => (0, Some(any_size(k))),
        _ => {
            let m = any_size(k);
            (m, Some(m))
        }
    };
    c02(l1(x), &[x], 1, k, &['z'], min, max);
}
/// much longer runs, and bounds at most two from their length
pub fn c02_huge() {
    let k = [1023, 1025, 4096, 4097, 32768, 65535, 65536, 65537][choice(param(0))];
    let m = size(k - 2, k + 2);
    let (min, max) = match choice(3) {
        0 => (m, None),
        1 => (0, Some(m)),
        _ => (m, Some(m)),
    };
    c02(l1('x'), &['x'], 1, k, &[ch('a', 'w')], min, max);
}
fn any_size(_k: usize) -> usize {
    bits(64) as usize
}
/// what a repetition took is not given back, and what it refuses stays
pub fn c02_greedy() {
    let k = choice(7);
    let x = ch('a', 'z');
    let y = ch('a', 'z');
    let min = size(0, 4);
    let max = size(0, 6);
    assume(min <= max);
    let rules = vec![("main", G::And(vec![G::Rep(Box::new(l1(x)), min, Some(max)), l1(y), opt(l1(x))]))];
    let mut inp = vec![x; k];
    if flag() {
        inp.push(y);
    }
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    match oracle(&rules, &inp) {
        Verdict::Accept(t) => {
            reach(1);
            check(r.is_ok(), 1);
            if let Ok(n) = &r {
                check(same_tree(&t, n), 2);
            }
        }
        _ => {
            reach(2);
            check(r.is_err(), 3);
        }
    }
    digest_result(&r);
}
/// a partial last turn is undone completely
pub fn c02_partial() {
    let (x, y, z) = (ch('a', 'z'), ch('a', 'z'), ch('a', 'z'));
    let min = choice(3);
    let max = match choice(3) {
        0 => None,
        1 => Some(3),
        _ => Some(min.max(1)),
    };
    let turn = match choice(3) {
        0 => G::And(vec![l1(x), l1(y)]),
        1 => G::And(vec![l1(x), G::Or(vec![G::Lit(vec![y, y]), l1(z)])]),
        _ => G::And(vec![star(l1(x)), l1(y)]),
    };
    let rules = vec![
        ("main", G::And(vec![G::Ref("r"), star(G::Dot)])),
        ("r", G::Rep(Box::new(turn), min, max)),
    ];
    let inp = text(choice(param(0) + 1), 'a', 'z');
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    match oracle(&rules, &inp) {
        Verdict::Accept(t) => {
            reach(1);
            check(r.is_ok(), 1);
            if let Ok(n) = &r {
                check(same_tree(&t, n), 2);
            }
        }
        _ => {
            reach(2);
            check(r.is_err(), 3);
        }
    }
    digest_result(&r);
}
/// unbounded repetition of something that may consume nothing
pub fn c02_empty() {
    let (x, y) = (ch('a', 'z'), ch('a', 'z'));
    let min = choice(3);
    let body = match choice(5) {
        0 => opt(l1(x)),
        1 => star(l1(x)),
        2 => G::Lit(vec![]),
        3 => G::Or(vec![l1(x), G::Lit(vec![])]),
        _ => G::And(vec![opt(l1(x)), not(l1(y))]),
    };
    let rules = vec![("main", G::And(vec![G::Rep(Box::new(body), min, None), star(G::Dot)]))];
    let inp = text(choice(4), 'a', 'z');
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    match oracle(&rules, &inp) {
        Verdict::Accept(_) => {
            reach(1);
            check(r.is_ok(), 1);
        }
        _ => check(r.is_err(), 2),
    }
    digest(r.is_ok() as u64);
}

// ------------------------------------------------------------------ C03 atoms

/// one atom at the start of a text of 0..=2 arbitrary characters
fn c03(g: G, inp: &[char], takes: Option<usize>) {
    let rules = vec![("main", G::And(vec![G::Ref("a"), star(G::Dot)])), ("a", g)];
    note_case(&rules, inp);
    let r = parse(&string(inp), &set(&rules));
    match takes {
        Some(n) => {
            reach(1);
            check(r.is_ok(), 1);
            if let Ok(t) = &r {
                let main = children(t, "main").unwrap_or(&[]);
                check(main.len() == 1 + inp.len() - n, 2);
                if main.len() == 1 + inp.len() - n {
                    let a = children(&main[0], "a").unwrap_or(&[]);
                    check(a.len() == 1, 3);
                    if a.len() == 1 {
                        check(a[0] == Node::Val(string(&inp[..n])), 4);
                    }
                    for i in n..inp.len() {
                        check(main[1 + i - n] == Node::Val(string(&inp[i..i + 1])), 5);
                    }
                }
            }
        }
        None => {
            reach(2);
            check(r.is_err(), 6);
        }
    }
    digest_result(&r);
}
fn uni(n: usize) -> Vec<char> {
    (0..n).map(|_| any_char()).collect()
}
pub fn c03_literal() {
    let l = uni(choice(param(0) + 1));
    let inp = uni(choice(param(0) + 1));
    let ok = l.len() <= inp.len() && l.iter().zip(inp.iter()).all(|(a, b)| a == b);
    let n = l.len();
    c03(G::Lit(l), &inp, if ok { Some(n) } else { None });
}
/// literals against near misses, up to 80 characters
pub fn c03_literal_long() {
    let n = [3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 80][choice(14)];
    let l = text(n, ' ', '~');
    let at = choice(n);
    let mut inp = l.clone();
    inp[at] = any_char();
    match choice(3) {
        0 => {}
        1 => inp.push(ch(' ', '~')),
        _ => {
            inp.pop();
        }
    }
    let ok = l.len() <= inp.len() && l[at] == inp[at];
    c03(G::Lit(l), &inp, if ok { Some(n) } else { None });
}
pub fn c03_class() {
    let cs = uni(choice(param(0) + 1));
    let rs: Vec<(char, char)> = (0..choice(param(1) + 1)).map(|_| (any_char(), any_char())).collect();
    let inp = uni(choice(2));
    let ok = match inp.first() {
        None => false,
        Some(x) => {
            let mut m = false;
            for c in &cs {
                m |= *c == *x;
            }
            for (a, b) in &rs {
                m |= (*a <= *x) & (*x <= *b);
            }
            m
        }
    };
    c03(G::Class(cs, rs), &inp, if ok { Some(1) } else { None });
}
pub fn c03_class_wide() {
    let cs = text([0, 1, 5, 16, 33, 40][choice(6)], ' ', '~');
    let rs: Vec<(char, char)> = (0..[0, 1, 4, 9, 20][choice(5)]).map(|_| (ch(' ', '~'), ch(' ', '~'))).collect();
    let mut cs = cs;
    if let Some(c) = cs.last_mut() {
        *c = any_char();
    }
    let x = any_char();
    let mut m = false;
    for c in &cs {
        m |= *c == x;
    }
    for (a, b) in &rs {
        m |= (*a <= x) & (x <= *b);
    }
    c03(G::Class(cs, rs), &[x], if m { Some(1) } else { None });
}
pub fn c03_dot_eof() {
    let inp = uni(choice(param(0) + 1));
    if flag() {
        let n = inp.len();
        c03(G::Dot, &inp, if n > 0 { Some(1) } else { None });
    } else {
        // end of input after k characters
        let k = choice(inp.len() + 1);
        let rules = vec![("main", G::And(vec![G::Rep(Box::new(G::Dot), k, Some(k)), G::Eof]))];
        note_case(&rules, &inp);
        let r = parse(&string(&inp), &set(&rules));
        if k == inp.len() {
            reach(3);
            check(r.is_ok(), 10);
            if let Ok(t) = &r {
                let main = children(t, "main").unwrap_or(&[]);
                check(main.len() == k + 1, 11);
                check(main.last() == Some(&Node::EOF), 12);
            }
        } else {
            reach(4);
            check(r.is_err(), 13);
        }
        digest_result(&r);
    }
}
