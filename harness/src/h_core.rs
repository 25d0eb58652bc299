//! Recognition, trees, errors: symbolic grammars against the reference model.
use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use dynparser::parse;

const ALL_OPS: u32 = O_AND | O_OR | O_NOT | O_STAR | O_PLUS | O_OPT | O_BOUND;
const PLAIN: u32 = L_LIT1 | L_LIT2 | L_EMPTY | L_CLASS | L_DOT | L_REF;

fn az(leaves: u32, ops: u32) -> Cfg {
    Cfg { leaves, ops, lo: 'a', hi: 'z' }
}

// ------------------------------------------------------------------ C01 verdict

fn c01(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    match oracle(rules, inp) {
        Verdict::Accept(_) => {
            reach(1);
            check(r.is_ok(), 1);
        }
        Verdict::Fail(_) => {
            reach(2);
            check(r.is_err(), 2);
        }
        Verdict::Left(_) => {
            reach(3);
            check(r.is_err(), 3);
        }
    }
    digest(r.is_ok() as u64);
}
/// p0 nodes, p1 input length
pub fn c01_trees() {
    let c = az(PLAIN, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c01(&rules, &inp);
}
/// three-way groups
pub fn c01_trees3() {
    let c = az(L_LIT1 | L_CLASS | L_DOT, O_AND3 | O_OR3 | O_NOT | O_STAR | O_OPT);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c01(&rules, &inp);
}
pub fn c01_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c01(&rules, &inp);
}
/// choices of sequences, sequences of choices
pub fn c01_table() {
    let (rules, inp) = table(param(0), param(1), param(2));
    c01(&rules, &inp);
}
pub fn c01_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c01(&rules, &inp);
}
pub fn c01_odd() {
    let (rules, inp) = odd(&az(0, 0));
    c01(&rules, &inp);
}

/// the same over other alphabets
pub fn c01_ascii() {
    let c = Cfg { leaves: PLAIN, ops: ALL_OPS, lo: '\u{0}', hi: '\u{7f}' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c01(&rules, &inp);
}
pub fn c01_unicode() {
    let c = Cfg { leaves: PLAIN, ops: ALL_OPS, lo: '\u{0}', hi: char::MAX };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c01(&rules, &inp);
}
/// empty groups, groups of one
pub fn c01_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c01(&rules, &inp);
}
pub fn c01_names() {
    let (rules, inp) = odd_names();
    c01(&rules, &inp);
}

// ------------------------------------------------------------------ C04 whole input, in characters

/// an accepted text is consumed to the end, a text with anything left over is refused;
/// text and grammar over all of Unicode
pub fn c04_unicode() {
    let n = choice(3);
    let lit: Vec<char> = (0..n).map(|_| any_char()).collect();
    let m = choice(3);
    let tail: Vec<char> = (0..m).map(|_| any_char()).collect();
    let g = match choice(6) {
        0 => G::Lit(lit.clone()),
        1 => G::And(lit.iter().map(|c| l1(*c)).collect()),
        2 => G::And(vec![G::Rep(Box::new(G::Dot), n, Some(n))]),
        3 => G::Or(vec![G::Lit(lit.clone()), star(G::Dot)]),
        4 => G::And(lit.iter().map(|c| G::Class(vec![*c], vec![])).collect()),
        _ => star(G::Dot),
    };
    let mut inp = lit.clone();
    inp.extend(tail);
    let rules = vec![("main", g)];
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    match oracle(&rules, &inp) {
        Verdict::Accept(t) => {
            reach(1);
            check(r.is_ok(), 1);
            if let Ok(n) = &r {
                check(same_tree(&t, n), 2);
            }
        }
        _ => {
            reach(2);
            check(r.is_err(), 3);
        }
    }
    digest(r.is_ok() as u64);
}
/// leftovers after every kind of grammar
fn c04(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let s = string(inp);
    let set = set(rules);
    let r = parse(&s, &set);
    match oracle(rules, inp) {
        Verdict::Left(_) => {
            reach(1);
            check(r.is_err(), 1);
        }
        Verdict::Accept(_) => {
            reach(2);
            check(r.is_ok(), 3);
            // one more character of any kind is left over unless the grammar takes it
            let mut more = inp.to_vec();
            more.push(any_char());
            let r2 = parse(&string(&more), &set);
            match oracle(rules, &more) {
                Verdict::Accept(_) => check(r2.is_ok(), 4),
                _ => {
                    reach(3);
                    check(r2.is_err(), 5);
                }
            }
            digest(r2.is_ok() as u64);
        }
        Verdict::Fail(_) => check(r.is_err(), 6),
    }
    digest(r.is_ok() as u64);
}
pub fn c04_trees() {
    let c = az(PLAIN | L_EOF, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c04(&rules, &inp);
}
pub fn c04_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c04(&rules, &inp);
}
/// choices of sequences, sequences of choices
pub fn c04_table() {
    let (rules, inp) = table(param(0), param(1), param(2));
    c04(&rules, &inp);
}
pub fn c04_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c04(&rules, &inp);
}

/// empty groups, groups of one
pub fn c04_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c04(&rules, &inp);
}

// ------------------------------------------------------------------ C05 the tree

fn c05(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    if let Verdict::Accept(t) = oracle(rules, inp) {
        reach(1);
        check(r.is_ok(), 1);
        if let Ok(n) = &r {
            check(same_tree(&t, n), 2);
            let mut all = String::new();
            leaves(n, &mut all);
            check(all.as_str() == string(inp).as_str(), 3);
        }
    }
    digest_result(&r);
}
fn leaves(n: &dynparser::ast::Node, out: &mut String) {
    match n {
        dynparser::ast::Node::Val(s) => out.push_str(s),
        dynparser::ast::Node::Rule((_, v)) => {
            for x in v {
                leaves(x, out);
            }
        }
        dynparser::ast::Node::EOF => {}
    }
}
pub fn c05_trees() {
    let c = az(PLAIN | L_EOF, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c05(&rules, &inp);
}
pub fn c05_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c05(&rules, &inp);
}
/// choices of sequences, sequences of choices
pub fn c05_table() {
    let (rules, inp) = table(param(0), param(1), param(2));
    c05(&rules, &inp);
}
pub fn c05_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c05(&rules, &inp);
}
pub fn c05_odd() {
    let (rules, inp) = odd(&az(0, 0));
    c05(&rules, &inp);
}
/// several rules, every tree shape over references to them
pub fn c05_rules() {
    let c = az(L_REF | L_LIT1, ALL_OPS);
    let (g, _) = tree(param(0), &c);
    let x = ch('a', 'z');
    let rules = vec![
        ("main", G::And(vec![G::Ref("r"), g])),
        ("r", G::Or(vec![G::And(vec![G::Ref("q"), G::Ref("q")]), G::Ref("q"), G::Ref("e")])),
        ("q", G::And(vec![l1(x), G::Ref("e"), opt(l1(ch('a', 'z')))])),
        ("e", G::Lit(vec![])),
    ];
    let inp = input(param(1), &c);
    c05(&rules, &inp);
}

/// the same over other alphabets
pub fn c05_ascii() {
    let c = Cfg { leaves: PLAIN | L_EOF, ops: ALL_OPS, lo: '\u{0}', hi: '\u{7f}' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c05(&rules, &inp);
}
pub fn c05_unicode() {
    let c = Cfg { leaves: PLAIN | L_EOF, ops: ALL_OPS, lo: '\u{0}', hi: char::MAX };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c05(&rules, &inp);
}
/// empty groups, groups of one
pub fn c05_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c05(&rules, &inp);
}
pub fn c05_names() {
    let (rules, inp) = odd_names();
    c05(&rules, &inp);
}

// ------------------------------------------------------------------ C06 position and context lines

fn c06(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    if let Err(e) = &r {
        reach(1);
        let n = e.pos.n;
        check(n <= inp.len(), 1);
        let n = n.min(inp.len());
        let (mut row, mut col, mut start) = (0, 0, 0);
        for i in 0..n {
            if inp[i] == '\n' {
                row += 1;
                start = i + 1;
                col = 0;
            } else if inp[i] == '\r' {
                col = 0;
            } else {
                col += 1;
            }
        }
        if row > 0 {
            reach(2);
        }
        check(e.pos.row == row, 2);
        check(e.pos.col == col, 3);
        check(e.pos.start_line == start, 4);
        check(e.line_before.as_str() == string(&inp[start..n]).as_str(), 5);
        let mut end = n;
        while end < inp.len() && inp[end] != '\n' && inp[end] != '\r' {
            end += 1;
        }
        check(e.line_after.as_str() == string(&inp[n..end]).as_str(), 6);
    }
    digest_result(&r);
}
pub fn c06_trees() {
    let c = Cfg { leaves: PLAIN | L_EOF | L_ERR | L_MISSING, ops: ALL_OPS, lo: '\t', hi: '~' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c06(&rules, &inp);
}
pub fn c06_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: '\t', hi: '~' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c06(&rules, &inp);
}
pub fn c06_wide() {
    let k = if param(6) > 0 { param(6) } else { [2, 3, 4, 5, 6, 7, 9, 11, 13][choice(9)] };
    let (rules, inp) = wide_k(k, &Cfg { leaves: 0, ops: 0, lo: '\t', hi: '~' });
    c06(&rules, &inp);
}
/// any text over all of Unicode, refused at any point
pub fn c06_unicode() {
    let n = choice(param(0) + 1);
    let inp: Vec<char> = (0..n).map(|_| any_char()).collect();
    let k = choice(n + 1);
    let at = G::Rep(Box::new(G::Dot), k, Some(k));
    let g = match choice(5) {
        0 => G::And(vec![at, G::Error(chars("boom"))]),
        1 => G::And(vec![at, l1(any_char())]),
        2 => at,
        3 => G::And(vec![at, not(star(G::Dot))]),
        _ => G::And(vec![at, star(l1('x')), G::Eof]),
    };
    c06(&vec![("main", g)], &inp);
}
/// long lines, many rows: concrete filling, symbolic characters around the failure
pub fn c06_long() {
    let rows = [0, 1, 2, 9, 31, 100, 255, 256, 300][choice(9)];
    let cols = [0, 1, 7, 40, 127, 128, 255, 256, 300][choice(9)];
    c06_at(rows, cols, any_char(), [0, 3, 70, 260][choice(4)], flag());
}
/// very many rows, very long rows
pub fn c06_huge() {
    let n = [1025, 4097, 32769, 65537][choice(param(0))];
    let (rows, cols) = if flag() { (n, choice(2)) } else { (choice(2), n) };
    c06_at(rows, cols, ch('\t', '\u{7f}'), [0, 4097][choice(2)], false);
}
fn c06_at(rows: usize, cols: usize, x: char, more: usize, line: bool) {
    let mut inp = vec![];
    for i in 0..rows {
        for j in 0..i % 3 {
            inp.push(if (i + j) % 5 == 0 { 'é' } else { 'w' });
        }
        if i % 4 == 3 {
            inp.push('\r');
        }
        inp.push('\n');
    }
    for j in 0..cols {
        inp.push(if j % 17 == 16 { '€' } else { 'v' });
    }
    let k = inp.len();
    inp.push(x);
    inp.push(ch('\t', 'z'));
    for _ in 0..more {
        inp.push('u');
    }
    if line {
        inp.push('\n');
        inp.push('t');
    }
    let at = G::Rep(Box::new(G::Dot), k, Some(k));
    let g = match choice(3) {
        0 => G::And(vec![at, G::Error(chars("boom"))]),
        1 => G::And(vec![at, l1(ch('\t', 'z')), l1(ch('\t', 'z'))]),
        _ => G::And(vec![star(G::Class(chars("wv\n\ré€"), vec![]))]),
    };
    c06(&vec![("main", g)], &inp);
}

/// empty groups, groups of one
pub fn c06_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c06(&rules, &inp);
}

// ------------------------------------------------------------------ C07 critical errors

fn c07(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    match oracle(rules, inp) {
        Verdict::Fail(f) => {
            check(r.is_err(), 1);
            if let Err(e) = &r {
                let critical = e.priority == dynparser::parser::ErrPriority::Critical;
                check(critical == f.critical, 2);
                if let Some(t) = &f.text {
                    reach(1);
                    check(e.descr.as_str() == string(t).as_str(), 3);
                    check(e.pos.n == f.n, 4);
                }
                if let Some(m) = f.missing {
                    reach(2);
                    check(e.descr.contains(m), 5);
                    check(e.pos.n == f.n, 6);
                }
            }
        }
        Verdict::Accept(_) => {
            reach(3);
            check(r.is_ok(), 7);
        }
        Verdict::Left(_) => {
            check(r.is_err(), 8);
            if let Err(e) = &r {
                check(e.priority == dynparser::parser::ErrPriority::Normal, 9);
            }
        }
    }
    digest_result(&r);
}
pub fn c07_trees() {
    let c = az(L_LIT1 | L_DOT | L_ERR | L_MISSING, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c07(&rules, &inp);
}
/// an error below rules, groups and repetitions, with symbolic text
pub fn c07_nested() {
    let c = az(L_LIT1 | L_LIT2 | L_DOT, ALL_OPS);
    let msg: Vec<char> = match choice(4) {
        0 => vec![],
        1 => text(3, ' ', '~'),
        2 => vec![any_char(), any_char()],
        _ => text([1, 8, 20, 70, 130][choice(5)], 'a', 'z'),
    };
    let bad = if choice(4) == 0 { G::Ref("nowhere") } else { G::Error(msg) };
    let mut g = G::And(vec![tree(param(0), &c).0, bad]);
    for _ in 0..1 + choice(param(2)) {
        g = match choice(7) {
            0 => G::Or(vec![g, star(G::Dot)]),
            1 => G::Or(vec![l1(ch('a', 'z')), g, G::Lit(vec![])]),
            2 => star(g),
            3 => G::Rep(Box::new(g), 1, Some(3)),
            4 => G::And(vec![opt(l1(ch('a', 'z'))), g, G::Dot]),
            5 => G::And(vec![opt(g), star(G::Dot)]),
            _ => G::Or(vec![G::And(vec![not(G::And(vec![G::Dot, g.clone()])), star(G::Dot)]), g]),
        };
    }
    let inp = input(param(1), &c);
    c07(&vec![("main", G::Ref("r")), ("r", g)], &inp);
}
/// a choice with the error as the last of many alternatives, a loop with the error at a late turn
/// with an error at the end of it
pub fn c07_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (mut rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    if flag() {
        let g = std::mem::replace(&mut rules[0].1, G::Dot);
        rules[0].1 = G::And(vec![g, G::Or(vec![l1('!'), G::Ref("e")])]);
        rules.push(("e", G::And(vec![star(l1('z')), G::Error(chars("boom"))])));
    }
    c07(&rules, &inp);
}
pub fn c07_wide() {
    let n = [1, 2, 3, 5, 9, 17, 33, 65][choice(8)];
    let x = ch('a', 'z');
    let g = match choice(4) {
        0 => {
            let mut v: Vec<G> = (0..n).map(|i| if i % 2 == 0 { lit("A") } else { lit("BC") }).collect();
            v.push(G::Error(chars("late")));
            v.push(star(G::Dot));
            G::Or(v)
        }
        1 => star(G::Or(vec![l1(x), G::And(vec![l1(ch('a', 'z')), G::Error(chars("late"))])])),
        2 => {
            let mut g = G::And(vec![star(l1(x)), G::Error(chars("late"))]);
            for i in 0..n {
                g = match i % 4 {
                    0 => opt(g),
                    1 => G::Or(vec![g, star(G::Dot)]),
                    2 => G::And(vec![g, opt(lit("q"))]),
                    _ => star(g),
                };
            }
            g
        }
        _ => G::And(vec![G::Rep(Box::new(l1(x)), n, None), G::Or(vec![G::Eof, G::Error(chars("late"))])]),
    };
    let mut inp = vec![x; choice(3) * n];
    inp.push(ch('a', 'z'));
    c07(&vec![("main", g)], &inp);
}

/// the same over other alphabets
pub fn c07_ascii() {
    let c = Cfg { leaves: L_LIT1 | L_DOT | L_ERR | L_MISSING, ops: ALL_OPS, lo: '\u{0}', hi: '\u{7f}' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c07(&rules, &inp);
}
/// empty groups, groups of one
pub fn c07_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c07(&rules, &inp);
}
pub fn c07_names() {
    let (rules, inp) = odd_names();
    c07(&rules, &inp);
}

// ------------------------------------------------------------------ C08 the furthest failure

/// the description names one of what would have been accepted (if that has a name)
fn names_one(wants: &[Want], descr: &str) -> bool {
    wants.is_empty()
        || wants.iter().any(|w| match w {
            Want::Lit(t) | Want::Chars(t) => descr.contains(string(t).as_str()),
            Want::Other => true,
        })
}
fn c08(rules: &Rules, inp: &[char]) {
    c08_told(rules, inp, false)
}
fn c08_told(rules: &Rules, inp: &[char], told: bool) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    match oracle(rules, inp) {
        Verdict::Accept(_) => check(r.is_ok(), 1),
        Verdict::Fail(f) => {
            reach(1);
            check(r.is_err(), 2);
            if let Err(e) = &r {
                check(e.pos.n == f.n, 3);
            }
        }
        Verdict::Left(p) => {
            check(r.is_err(), 4);
            if let Err(e) = &r {
                match p.pot {
                    Some(f) => {
                        reach(2);
                        check(e.pos.n == f.n, 5);
                        // not what stopped an earlier one at the same place
                        if told {
                            check(names_one(&f.wants, &e.descr), 7);
                        }
                    }
                    None => {
                        reach(3);
                        check(e.pos.n == p.n, 6);
                    }
                }
            }
        }
    }
    digest_result(&r);
}
pub fn c08_trees() {
    let c = az(PLAIN, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08(&rules, &inp);
}
/// which repetition is told of
pub fn c08_told_trees() {
    let c = Cfg { leaves: L_LIT1 | L_REF, ops: O_AND | O_OR | O_STAR | O_OPT | O_PLUS, lo: 'a', hi: 'z' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08_told(&rules, &inp, true);
}
pub fn c08_choices() {
    let c = az(L_LIT1 | L_LIT2 | L_DOT, O_AND3 | O_OR3 | O_AND | O_OR | O_STAR | O_NOT);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08(&rules, &inp);
}
pub fn c08_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c08(&rules, &inp);
}
/// choices of sequences, sequences of choices
pub fn c08_table() {
    let (rules, inp) = table(param(0), param(1), param(2));
    c08(&rules, &inp);
}
pub fn c08_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c08(&rules, &inp);
}
/// a choice of literals of different lengths, each failing at its own place
pub fn c08_lits() {
    let n = 2 + choice(3);
    let inp: Vec<char> = text(choice(6), 'a', 'z');
    let alts: Vec<G> = (0..n)
        .map(|_| {
            let k = choice(4);
            let mut v: Vec<char> = inp.iter().take(k).copied().collect();
            v.push(ch('a', 'z'));
            v.push(ch('a', 'z'));
            if choice(2) == 0 {
                G::Lit(v)
            } else {
                G::And(v.into_iter().map(l1).collect())
            }
        })
        .collect();
    c08(&vec![("main", G::Or(alts))], &inp);
}

/// the same over other alphabets
pub fn c08_ascii() {
    let c = Cfg { leaves: PLAIN, ops: ALL_OPS, lo: '\u{0}', hi: '\u{7f}' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08(&rules, &inp);
}
pub fn c08_unicode() {
    let c = Cfg { leaves: PLAIN, ops: ALL_OPS, lo: '\u{0}', hi: char::MAX };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08(&rules, &inp);
}
/// empty groups, groups of one
pub fn c08_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c08(&rules, &inp);
}
/// several lines: the furthest failure is not the one with the largest column
pub fn c08_lines() {
    let c = Cfg { leaves: L_LIT1 | L_LIT2 | L_DOT | L_CLASS, ops: O_AND | O_OR | O_OR3 | O_STAR, lo: '\t', hi: 'z' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c08(&rules, &inp);
}
// ------------------------------------------------------------------ C09 no panic, termination

fn c09(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let set = set(rules);
    let r = parse(&string(inp), &set);
    reach(if r.is_ok() { 1 } else { 2 });
    check(r.is_ok() != r.is_err(), 1);
    digest_result(&r);
}
pub fn c09_trees() {
    let c = Cfg {
        leaves: L_LIT1 | L_EMPTY | L_CLASS | L_DOT | L_ERR | L_EOF | L_MISSING | L_REF,
        ops: ALL_OPS | O_ZERO,
        lo: '\t',
        hi: '~',
    };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c09(&rules, &inp);
}
pub fn c09_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c09(&rules, &inp);
}
pub fn c09_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c09(&rules, &inp);
}
pub fn c09_odd() {
    let (rules, inp) = odd(&Cfg { leaves: 0, ops: 0, lo: '\u{0}', hi: '\u{2ff}' });
    c09(&rules, &inp);
}
/// any Unicode text against classes, literals and repetitions of any Unicode characters
pub fn c09_unicode() {
    let n = choice(param(0) + 1);
    let inp: Vec<char> = (0..n).map(|_| any_char()).collect();
    let a = any_char();
    let b = any_char();
    let g = match choice(6) {
        0 => G::Lit(vec![a, b]),
        1 => star(G::Class(vec![a], vec![(b, any_char())])),
        2 => G::And(vec![star(not(l1(a))), G::Dot]),
        3 => G::And(vec![star(l1(a)), l1(b)]),
        4 => G::Or(vec![G::And(vec![l1(a), G::Error(vec![b])]), star(G::Dot)]),
        _ => G::Rep(Box::new(G::Or(vec![l1(a), l1(b)])), 1, Some(3)),
    };
    c09(&vec![("main", g)], &inp);
}
/// odd bounds: any minimum and maximum, also contradictory ones
pub fn c09_bounds() {
    let min = bits(64) as usize;
    let max = bits(64) as usize;
    let x = ch('a', 'z');
    let body = match choice(3) {
        0 => l1(x),
        1 => G::And(vec![l1(x), opt(l1(x))]),
        _ => G::Dot,
    };
    let g = G::Rep(Box::new(body), min, if flag() { Some(max) } else { None });
    c09(&vec![("main", G::And(vec![g, star(G::Dot)]))], &input(4, &az(0, 0)));
}
/// nothing called main, no rules at all
pub fn c09_empty() {
    let inp = input(2, &az(0, 0));
    let rules = match choice(3) {
        0 => vec![],
        1 => vec![("r", G::Dot)],
        _ => vec![("main", G::Ref("r"))],
    };
    c09(&rules, &inp);
}

/// empty groups, groups of one
pub fn c09_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c09(&rules, &inp);
}
pub fn c09_names() {
    let (rules, inp) = odd_names();
    c09(&rules, &inp);
}

// ------------------------------------------------------------------ C10 repeatable; debug tracing changes nothing

fn same_error(a: &dynparser::parser::Error, b: &dynparser::parser::Error) -> bool {
    (a.pos == b.pos)
        & (a.descr == b.descr)
        & (a.line_before == b.line_before)
        & (a.line_after == b.line_after)
        & (a.priority == b.priority)
}
fn c10(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let s = string(inp);
    let set1 = set(rules);
    let r = parse(&s, &set1);
    let again = parse(&s, &set1);
    let dbg = dynparser::parse_debug(&s, &set1);
    match (&r, &again, &dbg) {
        (Ok(a), Ok(b), Ok(c)) => {
            reach(1);
            check(a == b, 1);
            check(a == c, 2);
        }
        (Err(a), Err(b), Err(c)) => {
            reach(2);
            check(same_error(a, b), 3);
            check(same_error(a, c), 4);
            check(a.parsing_rules.is_empty() && b.parsing_rules.is_empty(), 5);
            // the trace: the rules entered on the way to the error
            let walk = match oracle_walk(rules, inp) {
                Verdict::Fail(f) => f.walk,
                Verdict::Left(p) => match p.pot {
                    Some(f) => f.walk,
                    None => p.walk,
                },
                Verdict::Accept(_) => vec![],
            };
            check(c.parsing_rules.len() == walk.len(), 6);
            for i in 0..walk.len().min(c.parsing_rules.len()) {
                check(c.parsing_rules[i].ends_with(walk[i]), 7);
            }
        }
        _ => check(false, 8),
    }
    // nothing remains of a parse with tracing
    let last = parse(&s, &set1);
    match (&r, &last) {
        (Ok(a), Ok(b)) => check(a == b, 9),
        (Err(a), Err(b)) => check(same_error(a, b) && b.parsing_rules.is_empty(), 10),
        _ => check(false, 11),
    }
    // nor does it matter which of two equal sets of rules is used
    let other = set(rules);
    match (&r, &parse(&s, &other)) {
        (Ok(a), Ok(b)) => check(a == b, 14),
        (Err(a), Err(b)) => check(same_error(a, b), 15),
        _ => check(false, 16),
    }
    if dbg.is_err() {
        match (dynparser::parse_debug(&s, &set1), &dbg) {
            (Err(a), Err(b)) => check(same_error(&a, b) && a.parsing_rules == b.parsing_rules, 12),
            _ => check(false, 13),
        }
    }
    digest_result(&r);
    digest_result(&dbg);
}
pub fn c10_trees() {
    let c = az(PLAIN | L_ERR | L_MISSING | L_EOF, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c10(&rules, &inp);
}
pub fn c10_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = big_k([1, 2, 3, 4, 5, 6, 9, 10][choice(8)], &c);
    c10(&rules, &inp);
}
pub fn c10_wide() {
    let (rules, inp) = wide(&az(0, 0));
    c10(&rules, &inp);
}
/// interleaved parses of two texts with one set of rules do not influence each other
pub fn c10_interleaved() {
    let c = az(PLAIN, ALL_OPS);
    let rules = grammar(param(0), &c);
    let a = string(&input(2, &c));
    let b = string(&input(2, &c));
    note_case(&rules, &[]);
    let set1 = set(&rules);
    let ra = parse(&a, &set1);
    let _ = dynparser::parse_debug(&b, &set1);
    let rb = parse(&b, &set1);
    let ra2 = parse(&a, &set1);
    let rb2 = parse(&b, &set(&rules));
    let same = |x: &Result<dynparser::ast::Node, dynparser::parser::Error>, y: &Result<dynparser::ast::Node, dynparser::parser::Error>| match (x, y) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => same_error(a, b) && a.parsing_rules == b.parsing_rules,
        _ => false,
    };
    reach(1);
    check(same(&ra, &ra2), 1);
    check(same(&rb, &rb2), 2);
    digest_result(&ra);
    digest_result(&rb);
}
pub fn c10_rules() {
    let c = az(L_REF | L_LIT1, O_AND | O_OR | O_STAR | O_NOT | O_OPT);
    let (g, _) = tree(param(0), &c);
    let x = ch('a', 'z');
    let rules = vec![
        ("main", G::And(vec![G::Ref("r"), g])),
        ("r", G::Or(vec![G::And(vec![G::Ref("q"), G::Ref("q")]), G::Ref("q"), G::Ref("e")])),
        ("q", G::And(vec![l1(x), G::Ref("e"), opt(l1(ch('a', 'z')))])),
        ("e", G::Lit(vec![])),
    ];
    let inp = input(param(1), &c);
    c10(&rules, &inp);
}
/// the same over other alphabets
pub fn c10_ascii() {
    let c = Cfg { leaves: PLAIN | L_ERR, ops: ALL_OPS, lo: '\u{0}', hi: '\u{7f}' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c10(&rules, &inp);
}
/// empty groups, groups of one
pub fn c10_groups() {
    let (rules, inp) = groups(param(0), param(1));
    c10(&rules, &inp);
}
pub fn c10_names() {
    let (rules, inp) = odd_names();
    c10(&rules, &inp);
}

/// rule sets that share names do not influence each other, whichever was used or dropped before
/// many rules with similar names, one of which is missing
pub fn c10_many() {
    let kinds: [&[&str]; 7] = [
        &["abc", "Abc", "aBc", "abC", "ABC", "ABc", "AbC", "aBC"],
        &["rule1", "rule2", "rule3", "rule4", "rule5", "rule6", "rule7", "rule8"],
        &["a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh"],
        &["m.x", "n.x", "o.x", ".x", "x", "m.n.x", "q.x", "x.x"],
        &["expr", "expt", "exp", "expr_", "_expr", "exprs", "epxr", "expr'"],
        &["k", "l", "m", "n", "o", "p", "q", "r"],
        &["main1", "mian", "Main", "MAIN", "main_", "_main", ".main", "main."],
    ];
    let names = kinds[choice(7)];
    let n = 1 + choice(8);
    let missing = choice(n);
    let x = ch('a', 'z');
    let mut rules: Rules = vec![];
    for i in 0..n {
        if i != missing {
            rules.push((names[i], if i % 2 == 0 { l1(x) } else { G::Dot }));
        }
    }
    let main = match choice(4) {
        0 => G::Ref(names[missing]),
        1 => G::And(vec![G::Dot, G::Ref(names[missing])]),
        2 => G::Or(rules.iter().map(|r| G::And(vec![G::Ref(r.0), G::Lit(vec!['!'])])).chain(vec![G::Lit(vec!['?'])]).collect()),
        _ => G::Rep(Box::new(G::Ref(names[(missing + 1) % n])), 0, None),
    };
    rules.push(("main", main));
    let inp = text(choice(3), 'a', 'z');
    c10(&rules, &inp);
    // and put together in the opposite order
    let s = string(&inp);
    let a = parse(&s, &set(&rules));
    rules.reverse();
    match (&a, &parse(&s, &set(&rules))) {
        (Ok(a), Ok(b)) => check(a == b, 17),
        (Err(a), Err(b)) => check(same_error(a, b), 18),
        _ => check(false, 19),
    }
}
pub fn c10_sets() {
    let c = az(L_LIT1 | L_REF | L_DOT, O_AND | O_OR | O_STAR | O_NOT | O_OPT);
    let g = tree(param(0), &c).0;
    let (x, y) = (ch('a', 'z'), ch('a', 'z'));
    let one = vec![("main", G::And(vec![g.clone(), G::Ref("r")])), ("r", l1(x))];
    let two = vec![("main", G::And(vec![g, G::Ref("r")])), ("r", G::Or(vec![G::Lit(vec![y, y]), G::Dot]))];
    let inp = input(param(1), &c);
    let s = string(&inp);
    note_case(&one, &inp);
    note_case(&two, &inp);
    let verdict = |rules: &Rules, r: &Result<dynparser::ast::Node, dynparser::parser::Error>, id: u64| match (oracle(rules, &inp), r) {
        (Verdict::Accept(t), Ok(n)) => {
            reach(1);
            check(same_tree(&t, n), id)
        }
        (Verdict::Accept(_), Err(_)) => check(false, id + 1),
        (Verdict::Fail(f), Err(e)) => {
            reach(2);
            check(e.pos.n == f.n, id + 2)
        }
        (_, r) => check(r.is_err(), id + 3),
    };
    let a = {
        let s1 = set(&one);
        parse(&s, &s1)
    };
    verdict(&one, &a, 10);
    let s2 = set(&two);
    let b = if flag() { dynparser::parse_debug(&s, &s2) } else { parse(&s, &s2) };
    verdict(&two, &b, 20);
    // a set changed between two parses
    let s3 = s2.add("r", expr(&one[1].1));
    let d = parse(&s, &s3);
    verdict(&one, &d, 30);
    digest_result(&a);
    digest_result(&b);
    digest_result(&d);
}
/// the same text at the same place in memory, changed in between
pub fn c10_texts() {
    let c = az(L_LIT1 | L_DOT | L_CLASS, O_AND | O_OR | O_STAR | O_NOT | O_OPT);
    let rules = grammar(param(0), &c);
    let n = choice(param(1)) + 1;
    let (a, b) = (text(n, 'a', 'z'), text(n, 'a', 'z'));
    let set = set(&rules);
    let mut s = string(&a);
    let ra = parse(&s, &set);
    s.clear();
    for ch in &b {
        s.push(*ch);
    }
    note_case(&rules, &b);
    let rb = parse(&s, &set);
    match (oracle(&rules, &b), &rb) {
        (Verdict::Accept(t), Ok(n)) => {
            reach(1);
            check(same_tree(&t, n), 1)
        }
        (Verdict::Accept(_), Err(_)) => check(false, 2),
        (Verdict::Fail(f), Err(e)) => {
            reach(2);
            check(e.pos.n == f.n, 3)
        }
        (_, r) => check(r.is_err(), 4),
    }
    digest_result(&ra);
    digest_result(&rb);
}

// ------------------------------------------------------------------ C24 what the message says

/// the message names what was looked for at the place reported
fn c24(rules: &Rules, inp: &[char]) {
    note_case(rules, inp);
    let r = parse(&string(inp), &set(rules));
    let f = match oracle(rules, inp) {
        Verdict::Accept(_) => None,
        Verdict::Fail(f) => Some(f),
        Verdict::Left(p) => p.pot,
    };
    if let Err(e) = &r {
        check(!e.descr.is_empty() || f.as_ref().map_or(false, |f| f.critical), 1);
        if let Some(f) = f {
            if noting() {
                note(&format!("message {:?}", e.descr));
            }
            if let Some(n) = f.missing {
                reach(2);
                check(e.descr.contains(n), 2);
            }
            if let Some(t) = &f.text {
                reach(3);
                check(e.descr.as_str() == string(t).as_str(), 3);
            }
            if !f.wants.is_empty() && f.wants.iter().all(|w| *w != Want::Other) {
                reach(1);
                check(names_one(&f.wants, &e.descr), 4);
            }
        }
        digest(e.pos.n as u64);
    }
}
pub fn c24_trees() {
    let c = az(L_LIT1 | L_LIT2 | L_CHLIST | L_DOT | L_ERR | L_MISSING, ALL_OPS);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c24(&rules, &inp);
}
pub fn c24_choices() {
    let c = az(L_LIT1 | L_LIT2 | L_CHLIST, O_AND | O_OR | O_AND3 | O_OR3 | O_STAR);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    c24(&rules, &inp);
}
pub fn c24_unicode() {
    let c = Cfg { leaves: L_LIT1 | L_LIT2, ops: O_AND | O_OR | O_PLUS, lo: '\u{0}', hi: char::MAX };
    let rules = grammar(param(0), &c);
    let inp: Vec<char> = (0..choice(param(1) + 1)).map(|i| if i == 0 { any_char() } else { ch('a', 'z') }).collect();
    c24(&rules, &inp);
}
/// long literals and classes, alone and as the last of two
pub fn c24_lits() {
    let n = [1, 2, 3, 5, 8, 9, 16, 17, 19, 20, 21, 31, 33, 40, 41, 65, 130, 257, 1025][choice(param(0))];
    let mut t: Vec<char> = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    t[0] = ch('A', 'Z');
    t[n - 1] = any_char();
    let k = choice(4);
    let g = match choice(3) {
        0 => G::Lit(t.clone()),
        1 => G::Class(t.clone(), vec![]),
        _ => G::Or(vec![G::Lit(t.clone()), G::Lit(t[..1 + (n - 1) / 2].to_vec())]),
    };
    let g = if flag() { G::And(vec![l1('\u{7f}'), g]) } else { g };
    let inp: Vec<char> = ['\u{7f}', t[0], '\n'][..k].to_vec();
    c24(&vec![("main", g)], &inp);
}
pub fn c24_big() {
    let c = Cfg { leaves: 0, ops: 0, lo: 'a', hi: 'z' };
    let (rules, inp) = if param(6) > 0 { big_k(param(6) - 1, &c) } else { big(&c) };
    c24(&rules, &inp);
}
/// choices of sequences, sequences of choices
pub fn c24_table() {
    let (rules, inp) = table(param(0), param(1), param(2));
    c24(&rules, &inp);
}
pub fn c24_wide() {
    let (rules, inp) = wide_k([4, 5, 6, 8][choice(4)], &az(0, 0));
    c24(&rules, &inp);
}

// ------------------------------------------------------------------ long texts of characters of several bytes

pub fn c06_bytes() {
    let (rules, inp) = multibyte(param(0));
    c06(&rules, &inp);
}
pub fn c09_bytes() {
    let (rules, inp) = multibyte(param(0));
    c09(&rules, &inp);
}
pub fn c24_names() {
    let (rules, inp) = odd_names();
    c24(&rules, &inp);
}
pub fn c24_bytes() {
    let (rules, inp) = multibyte(param(0));
    c24(&rules, &inp);
}

// ------------------------------------------------------------------ after much other work in the same process

/// concrete parses and readings of every kind, many of each
pub fn exercise(k: usize, n: usize) {
    let chain = |last: G| {
        vec![
            ("main", G::Or(vec![G::Ref("p"), G::Ref("q")])),
            ("p", G::And(vec![G::Ref("q"), l1('x')])),
            ("q", G::And(vec![G::Ref("r"), star(G::Ref("r"))])),
            ("r", G::Or(vec![G::Ref("s"), last])),
            ("s", l1('a')),
        ]
    };
    let mut alts = vec![G::Ref("a"); 10];
    alts.push(G::Ref("b"));
    let ab: Rules = vec![("main", star(G::Or(alts))), ("a", l1('a')), ("b", l1('b'))];
    match k {
        // rules refused, ten in each turn
        0 => {
            let s = string(&vec!['b'; 50]);
            let r = set(&ab);
            for _ in 0..n / 50 {
                check(parse(&s, &r).is_ok(), 90);
            }
        }
        // many short parses: refused, accepted, traced
        1 | 2 | 3 => {
            let r = set(&chain(G::Error(vec!['e'])));
            let ok = set(&chain(l1('b')));
            for _ in 0..n {
                match k {
                    1 => check(parse("c", &r).is_err(), 91),
                    2 => check(parse("ab", &ok).is_ok(), 92),
                    _ => check(dynparser::parse_debug("c", &r).is_err(), 93),
                }
            }
        }
        // many sets of rules, made and dropped
        4 => {
            for i in 0..n / 4 {
                let mut r = chain(l1('b'));
                r[4].1 = l1((b'a' + (i % 3) as u8) as char);
                check(parse("b", &set(&r)).is_ok(), 94);
            }
        }
        // many texts read, some of them refused
        5 => {
            for i in 0..n / 50 {
                let t = ["main='x'/r\nr=[a-c]\n", "main=(a\n", "m{\nr='q'\n}\n", "main=\"\\n\"\n"][i % 4];
                check(dynparser::rules_from_peg(t).is_ok() == (i % 4 != 1), 95);
            }
        }
        // deep recursion, refused at the bottom
        _ => {
            let r: Rules = vec![("main", G::Or(vec![G::And(vec![l1('('), G::Ref("main"), l1(')')]), l1('x')]))];
            let s = string(&(0..200).map(|_| '(').collect::<Vec<char>>());
            check(parse(&s, &set(&r)).is_err(), 96);
        }
    }
}
pub fn c10_after() {
    exercise(choice(7), param(2));
    let c = az(L_LIT1 | L_REF | L_DOT | L_MISSING, O_AND | O_OR | O_STAR | O_NOT);
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    let r = parse(&string(&inp), &set(&rules));
    match (oracle(&rules, &inp), &r) {
        (Verdict::Accept(t), Ok(n)) => check(same_tree(&t, n), 80),
        (Verdict::Fail(f), Err(e)) => check(e.pos.n == f.n, 81),
        (Verdict::Left(_), Err(_)) => {}
        _ => check(false, 82),
    }
    c10(&rules, &inp);
}
/// every range of a class is named, however many there are
pub fn c24_ranges() {
    let n = [1, 2, 3, 4, 5, 6, 9, 17, 33, 65, 129, 257][choice(param(0))];
    let rs: Vec<(char, char)> = (0..n)
        .map(|i| {
            let a = 0x4e00 + 4 * i as u32;
            (char::from_u32(a).unwrap_or('a'), char::from_u32(a + 2).unwrap_or('a'))
        })
        .collect();
    let cs = if flag() { vec![ch('a', 'z')] } else { vec![] };
    let g = G::Class(cs.clone(), rs.clone());
    let g = match choice(3) {
        0 => g,
        1 => G::And(vec![l1('!'), g]),
        _ => plus(g),
    };
    let rules = vec![("main", g)];
    let inp: Vec<char> = ['!', ch('a', '\u{7f}')][..choice(3)].to_vec();
    note_case(&rules, &inp);
    let r = parse(&string(&inp), &set(&rules));
    let f = match oracle(&rules, &inp) {
        Verdict::Accept(_) => None,
        Verdict::Fail(f) => Some(f),
        Verdict::Left(p) => p.pot,
    };
    if let (Err(e), Some(f)) = (&r, f) {
        if noting() {
            note(&format!("message {:?}", e.descr));
        }
        if !f.wants.is_empty() && f.wants.iter().all(|w| matches!(w, Want::Chars(_))) {
            reach(1);
            let found = |c: char| e.descr.chars().any(|d| d == c);
            check(rs.iter().all(|r| found(r.0) && found(r.1)), 1);
        }
        digest(e.pos.n as u64);
    }
}
/// a long walk over rules: the trace has all of them
pub fn c10_walk() {
    let n = [1, 16, 255, 257, 1025, 4097, 10001, 65537][choice(param(0))];
    let mut v = vec![G::Ref("a"); n];
    v.push(G::Ref("b"));
    let x = ch('a', 'z');
    let rules: Rules = vec![("main", G::And(v)), ("a", l1('a')), ("b", l1(x))];
    let mut inp = vec!['a'; n];
    inp[n - 1] = ch('a', 'z');
    inp.push(ch('a', 'z'));
    let s = string(&inp);
    let set1 = set(&rules);
    let r = parse(&s, &set1);
    let d = dynparser::parse_debug(&s, &set1);
    let at = if inp[n - 1] != 'a' {
        Some(n)
    } else if inp[n] != x {
        Some(n + 1)
    } else {
        None
    };
    match (&r, &d, at) {
        (Ok(a), Ok(b), None) => {
            reach(1);
            check(a == b, 1);
        }
        (Err(a), Err(b), Some(k)) => {
            reach(2);
            check(same_error(a, b) && a.pos.n == k && a.parsing_rules.is_empty(), 2);
            check(b.parsing_rules.len() == k + 1, 3);
            for (i, t) in b.parsing_rules.iter().enumerate() {
                let want = if i == 0 { "main" } else if i <= n { "a" } else { "b" };
                check(t.ends_with(want), 4);
            }
        }
        _ => check(false, 5),
    }
    if let Err(e) = &d {
        digest(e.pos.n as u64);
        digest(e.parsing_rules.len() as u64);
    }
}
