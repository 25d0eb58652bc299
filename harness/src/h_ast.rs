//! Trees: compact, prune, pass_through_except, flatten, navigation.
use crate::gen::sparse;
use crate::model::{digest_node, string};
use crate::sym::*;
use dynparser::ast::{self, flat, Node};

/// names, texts and what is asked for: any ASCII character
const LO: char = '\u{0}';
const HI: char = '\u{7f}';

/// an abstract tree; the model works on this
#[derive(Clone, PartialEq)]
pub enum A {
    Val(Vec<char>),
    Rule(Vec<char>, Vec<A>),
    Eof,
}

fn node(a: &A) -> Node {
    match a {
        A::Val(v) => Node::Val(string(v)),
        A::Rule(n, v) => Node::Rule((string(n), v.iter().map(node).collect())),
        A::Eof => Node::EOF,
    }
}
fn same(a: &A, n: &Node) -> bool {
    match (a, n) {
        (A::Val(v), Node::Val(s)) => s.as_str() == string(v).as_str(),
        (A::Eof, Node::EOF) => true,
        (A::Rule(name, v), Node::Rule((m, w))) => v.len() == w.len() && m.as_str() == string(name).as_str() && v.iter().zip(w.iter()).all(|(a, n)| same(a, n)),
        _ => false,
    }
}
fn show(a: &A) -> String {
    match a {
        A::Val(v) => format!("{:?}", string(v)),
        A::Eof => "EOF".into(),
        A::Rule(n, v) => format!("{}({})", string(n), v.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}
fn note_tree(a: &A) {
    if noting() {
        note(&format!("tree {}", show(a)));
    }
}

#[derive(Clone, Copy)]
struct Gen {
    /// texts have 0..=vlen characters
    vlen: usize,
    /// names have 1..=nlen characters
    nlen: usize,
    eof: bool,
    vals: bool,
}
/// one character, or 0..=n of them
fn any_name(n: usize) -> Vec<char> {
    let n = if n == 1 { 1 } else { choice(n + 1) };
    text(n, LO, HI)
}
/// every ordered forest of at most `budget` nodes; returns what is left of the budget
fn forest(budget: &mut usize, g: &Gen) -> Vec<A> {
    let mut out = vec![];
    while *budget > 0 {
        let kinds = 2 + g.eof as usize + g.vals as usize;
        match choice(kinds) {
            0 => break,
            1 => {
                *budget -= 1;
                let n = any_name(g.nlen);
                let v = forest(budget, g);
                out.push(A::Rule(n, v));
            }
            2 if g.vals => {
                *budget -= 1;
                out.push(A::Val(text(choice(g.vlen + 1), LO, HI)));
            }
            _ => {
                *budget -= 1;
                out.push(A::Eof);
            }
        }
    }
    out
}
fn root(budget: usize, g: &Gen) -> A {
    let mut b = budget;
    let v = forest(&mut b, g);
    A::Rule(vec!['m'], v)
}
/// like `root`, over all of Unicode
fn uni_root(budget: usize) -> (A, Vec<Vec<char>>) {
    let pool: Vec<Vec<char>> = vec![vec![any_char()], vec![any_char()]];
    fn forest(budget: &mut usize, pool: &[Vec<char>]) -> Vec<A> {
        let mut out = vec![];
        while *budget > 0 {
            let k = choice(4);
            if k == 0 {
                break;
            }
            *budget -= 1;
            if k == 3 {
                out.push(A::Val(pool[choice(pool.len())].clone()));
            } else {
                let v = forest(budget, pool);
                out.push(A::Rule(pool[k - 1].clone(), v));
            }
        }
        out
    }
    let mut b = budget;
    let v = forest(&mut b, &pool);
    (A::Rule(vec!['m'], v), pool)
}
fn lone() -> A {
    match choice(2) {
        0 => A::Eof,
        _ => A::Val(text(choice(3), LO, HI)),
    }
}
/// large in one direction: long sibling lists, deep chains, combs
fn big() -> A {
    big_of([1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 130][choice(12)])
}
/// larger still
fn huge() -> A {
    big_of([255, 256, 257, 300, 1025][choice(5)])
}
fn big_of(n: usize) -> A {
    let a = ch(LO, HI);
    let b = ch(LO, HI);
    match choice(5) {
        // a row of texts, something else every few
        0 => {
            let every = [3, 4, 5, 1000][choice(4)];
            let v = (0..n)
                .map(|i| {
                    if i % every == every - 1 {
                        A::Rule(vec![a], vec![A::Val(vec![b]), A::Val(vec![])])
                    } else if i == n / 2 {
                        A::Val(vec![a, 'é'])
                    } else {
                        A::Val(vec![b])
                    }
                })
                .collect();
            A::Rule(vec!['m'], v)
        }
        // a deep chain
        1 => {
            let mut t = A::Val(vec![a]);
            for i in 0..n.min(300) {
                t = A::Rule(vec![if i % 3 == 2 { b } else { 'k' }], vec![t]);
            }
            A::Rule(vec!['m'], vec![t])
        }
        // a comb: at each level text, child, text
        2 => {
            let mut t = A::Rule(vec![a], vec![]);
            for i in 0..n.min(40) {
                let name = match i % 3 {
                    0 => a,
                    1 => b,
                    _ => 'k',
                };
                t = A::Rule(vec![name], vec![A::Val(vec!['x']), t, A::Val(vec![a]), A::Val(vec![b])]);
            }
            A::Rule(vec!['m'], vec![t])
        }
        // many rules side by side
        3 => {
            let v = (0..n)
                .map(|i| match i % 4 {
                    0 => A::Rule(vec![a], vec![A::Rule(vec![b], vec![A::Val(vec!['x'])])]),
                    1 => A::Rule(vec![b], vec![]),
                    2 => A::Rule(vec!['k', a], vec![A::Val(vec![a])]),
                    _ => A::Eof,
                })
                .collect();
            A::Rule(vec!['m'], v)
        }
        // long texts and names
        _ => A::Rule(
            vec!['m'; n],
            vec![A::Val(text(n.min(60), LO, HI)), A::Val(text(n.min(40), LO, HI)), A::Rule(vec!['q'; n], vec![A::Val(vec![]), A::Val(vec!['x'; n])])],
        ),
    }
}
fn digest_all(n: &Node) {
    digest_node(n);
}

// ------------------------------------------------------------------ C19 compact

fn m_compact(a: &A) -> A {
    match a {
        A::Rule(n, v) => {
            let mut out: Vec<A> = vec![];
            for x in v {
                let x = m_compact(x);
                let merged = match (out.last_mut(), &x) {
                    (Some(A::Val(s)), A::Val(t)) => {
                        s.extend(t.iter().copied());
                        true
                    }
                    _ => false,
                };
                if !merged {
                    out.push(x);
                }
            }
            A::Rule(n.clone(), out)
        }
        x => x.clone(),
    }
}
fn c19(a: &A) {
    note_tree(a);
    let n = node(a);
    let c = n.compact();
    reach(1);
    check(same(&m_compact(a), &c), 1);
    check(c.compact() == c, 2);
    check(same(a, &n), 3);
    digest_all(&c);
}
pub fn c19_trees() {
    let g = Gen { vlen: 1, nlen: 1, eof: true, vals: true };
    c19(&root(param(0), &g));
}
pub fn c19_lone() {
    c19(&lone());
}
pub fn c19_near() {
    c19(&near().0);
}
pub fn c19_big() {
    c19(&big());
}
pub fn c19_huge() {
    c19(&huge());
}
/// a row of texts over all of Unicode, one of them possibly replaced by something else
pub fn c19_unicode() {
    let n = choice(param(0) + 1);
    let v = (0..n)
        .map(|_| match choice(4) {
            0 => A::Rule(vec![any_char()], vec![]),
            1 => A::Val(vec![]),
            _ => A::Val(vec![any_char()]),
        })
        .collect();
    c19(&A::Rule(vec!['m'], v));
}

// ------------------------------------------------------------------ C20 prune

fn is_in(n: &[char], names: &[Vec<char>]) -> bool {
    names.iter().any(|x| x.as_slice() == n)
}
fn m_prune(a: &A, names: &[Vec<char>]) -> A {
    match a {
        A::Rule(n, v) => {
            let mut out = vec![];
            for x in v {
                let cut = match x {
                    A::Rule(m, _) => is_in(m, names),
                    _ => false,
                };
                if !cut {
                    out.push(m_prune(x, names));
                }
            }
            A::Rule(n.clone(), out)
        }
        x => x.clone(),
    }
}
fn names(max: usize, len: usize) -> Vec<Vec<char>> {
    (0..choice(max + 1)).map(|_| any_name(len)).collect()
}
/// long names that differ in one place, texts that look like names
fn near() -> (A, Vec<Vec<char>>) {
    let n = [1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 129, 256, 257, 1025][choice(15)];
    let a = sparse(n, LO, HI);
    let mut b = a.clone();
    match choice(3) {
        0 => {
            let at = [0, n / 2, n - 1][choice(3)];
            b[at] = ch(LO, HI);
        }
        1 => {
            b.pop();
        }
        _ => b.push(ch(LO, HI)),
    }
    let inner = vec![A::Val(a.clone()), A::Rule(b.clone(), vec![A::Val(b.clone())]), A::Rule(a.clone(), vec![])];
    let t = A::Rule(
        vec!['m'],
        vec![A::Rule(a.clone(), vec![A::Val(vec!['x'])]), A::Val(b.clone()), A::Rule(b.clone(), inner), A::Val(a.clone()), A::Rule(vec!['k'], vec![A::Rule(a.clone(), vec![A::Eof])])],
    );
    let names = match choice(4) {
        0 => vec![a],
        1 => vec![b],
        2 => vec![b, a],
        _ => vec![a, vec!['k'], vec!['m']],
    };
    (t, names)
}
/// many names asked for
fn many() -> (A, Vec<Vec<char>>) {
    let n = [1, 2, 3, 4, 5, 8, 9, 17, 33, 65, 129, 257][choice(12)];
    // symbolic: the middle and the last, one of the two if there are many
    let which = if n < 9 { 3 } else { 1 + choice(2) };
    let symbolic = |i: usize| (which & 1 != 0 && i == n / 2) || (which & 2 != 0 && i + 1 == n);
    let names = (0..n).map(|i| if symbolic(i) { vec![ch(LO, HI)] } else { vec!['#', '#'] }).collect();
    let (a, b) = (vec![ch(LO, HI)], vec![ch(LO, HI)]);
    let t = A::Rule(
        vec!['m'],
        vec![A::Rule(a.clone(), vec![A::Rule(b.clone(), vec![A::Val(a.clone())]), A::Val(vec!['y'])]), A::Eof, A::Rule(b, vec![A::Rule(vec!['k'], vec![]), A::Rule(a, vec![A::Eof])])],
    );
    (t, names)
}
fn with_names<F: Fn(&[&str]) -> Node>(v: &[Vec<char>], f: F) -> Node {
    let s: Vec<String> = v.iter().map(|n| string(n)).collect();
    let r: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    f(&r)
}
fn note_names(v: &[Vec<char>]) {
    if noting() {
        note(&format!("names {:?}", v.iter().map(|n| string(n)).collect::<Vec<_>>()));
    }
}
fn c20(a: &A, ns: &[Vec<char>]) {
    note_tree(a);
    note_names(ns);
    let n = node(a);
    let p = with_names(ns, |x| n.prune(x));
    reach(1);
    check(same(&m_prune(a, ns), &p), 1);
    check(with_names(ns, |x| p.prune(x)) == p, 2);
    check(same(a, &n), 3);
    digest_all(&p);
}
pub fn c20_trees() {
    let g = Gen { vlen: 0, nlen: 1, eof: true, vals: true };
    let a = root(param(0), &g);
    c20(&a, &names(param(1), 1));
}
/// rules only, names of one or two characters (one a prefix of the other)
pub fn c20_names() {
    let g = Gen { vlen: 0, nlen: 2, eof: false, vals: false };
    let a = root(param(0), &g);
    c20(&a, &names(param(1), 2));
}
pub fn c20_unicode() {
    let (a, _) = uni_root(param(0));
    c20(&a, &[vec![any_char()]]);
}
pub fn c20_order() {
    let g = Gen { vlen: 1, nlen: 1, eof: false, vals: true };
    let a = root(param(0), &g);
    c20(&a, &names(1, 1));
}
pub fn c20_near() {
    let (a, n) = near();
    c20(&a, &n);
}
pub fn c20_many() {
    let (a, n) = many();
    c20(&a, &n);
}
pub fn c20_lone() {
    c20(&lone(), &names(1, 1));
}
pub fn c20_big() {
    let a = big();
    c20(&a, &names(2, 1));
}
pub fn c20_huge() {
    let a = huge();
    c20(&a, &names(2, 1));
}

// ------------------------------------------------------------------ C21 pass_through_except

fn m_pass(v: &[A], keep: &[Vec<char>], out: &mut Vec<A>) {
    for x in v {
        match x {
            A::Rule(n, w) => {
                if is_in(n, keep) {
                    let mut o = vec![];
                    m_pass(w, keep, &mut o);
                    out.push(A::Rule(n.clone(), o));
                } else {
                    m_pass(w, keep, out);
                }
            }
            x => out.push(x.clone()),
        }
    }
}
fn c21(a: &A, ns: &[Vec<char>]) {
    note_tree(a);
    note_names(ns);
    let n = node(a);
    let p = with_names(ns, |x| n.pass_through_except(x));
    let want = match a {
        A::Rule(m, v) => {
            let mut o = vec![];
            m_pass(v, ns, &mut o);
            A::Rule(m.clone(), o)
        }
        x => x.clone(),
    };
    reach(1);
    check(same(&want, &p), 1);
    check(with_names(ns, |x| p.pass_through_except(x)) == p, 2);
    check(same(a, &n), 3);
    digest_all(&p);
}
pub fn c21_trees() {
    let g = Gen { vlen: 0, nlen: 1, eof: true, vals: true };
    let a = root(param(0), &g);
    c21(&a, &names(param(1), 1));
}
pub fn c21_names() {
    let g = Gen { vlen: 0, nlen: 2, eof: false, vals: false };
    let a = root(param(0), &g);
    c21(&a, &names(param(1), 2));
}
pub fn c21_unicode() {
    let (a, _) = uni_root(param(0));
    c21(&a, &[vec![any_char()]]);
}
pub fn c21_near() {
    let (a, n) = near();
    c21(&a, &n);
}
pub fn c21_many() {
    let (a, n) = many();
    c21(&a, &n);
}
pub fn c21_lone() {
    c21(&lone(), &names(1, 1));
}
pub fn c21_big() {
    let a = big();
    c21(&a, &names(2, 1));
}
pub fn c21_huge() {
    let a = huge();
    c21(&a, &names(2, 1));
}
/// kept text stays in its place among what is lifted
pub fn c21_order() {
    let g = Gen { vlen: 1, nlen: 1, eof: false, vals: true };
    let a = root(param(0), &g);
    c21(&a, &names(1, 1));
}

// ------------------------------------------------------------------ C22 flatten

fn m_flat(a: &A, out: &mut Vec<flat::Node>) {
    match a {
        A::Val(v) => out.push(flat::Node::Val(string(v))),
        // nothing is claimed about ends of input in the flattened list
        A::Eof => {}
        A::Rule(n, v) => {
            out.push(flat::Node::BeginRule(string(n)));
            for x in v {
                m_flat(x, out);
            }
            out.push(flat::Node::EndRule(string(n)));
        }
    }
}
/// rebuild the tree by walking with the consume functions
fn rebuild<'a>(nodes: &'a [flat::Node]) -> Option<(Vec<A>, &'a [flat::Node])> {
    let mut out = vec![];
    let mut rest = nodes;
    loop {
        match flat::peek_first_node(rest) {
            Err(_) => return Some((out, rest)),
            Ok(flat::Node::EndRule(_)) => return Some((out, rest)),
            Ok(flat::Node::EOF) => rest = flat::split_first_nodes(rest).ok()?.1,
            Ok(flat::Node::Val(_)) => {
                let (v, r) = flat::consume_val(rest).ok()?;
                out.push(A::Val(v.chars().collect()));
                rest = r;
            }
            Ok(b) => {
                let name = flat::get_nodename(b).ok()?.to_string();
                let r = flat::consume_node_start_rule_name(&name, rest).ok()?;
                let (v, r) = rebuild(r)?;
                rest = flat::consume_node_end_rule_name(&name, r).ok()?;
                out.push(A::Rule(name.chars().collect(), v));
            }
        }
    }
}
fn no_eof(a: &A) -> Option<A> {
    match a {
        A::Eof => None,
        A::Val(v) => Some(A::Val(v.clone())),
        A::Rule(n, v) => Some(A::Rule(n.clone(), v.iter().filter_map(no_eof).collect())),
    }
}
fn c22(a: &A) {
    note_tree(a);
    let n = node(a);
    let f = n.flatten();
    let mut want = vec![];
    m_flat(a, &mut want);
    reach(1);
    let got: Vec<&flat::Node> = f.iter().filter(|x| **x != flat::Node::EOF).collect();
    check(got.len() == want.len(), 1);
    let mut ok = true;
    for i in 0..got.len().min(want.len()) {
        ok &= *got[i] == want[i];
    }
    check(ok, 2);
    check(same(a, &n), 3);
    match rebuild(&f) {
        Some((v, rest)) => {
            check(rest.is_empty(), 4);
            let want: Vec<A> = no_eof(a).into_iter().collect();
            check(v == want, 5);
        }
        None => check(false, 6),
    }
    digest(f.len() as u64);
    for x in &f {
        match x {
            flat::Node::Val(s) => {
                digest(1);
                digest_str(s);
            }
            flat::Node::BeginRule(s) => {
                digest(2);
                digest_str(s);
            }
            flat::Node::EndRule(s) => {
                digest(3);
                digest_str(s);
            }
            flat::Node::EOF => digest(4),
        }
    }
}
pub fn c22_trees() {
    let g = Gen { vlen: 1, nlen: 1, eof: true, vals: true };
    c22(&root(param(0), &g));
}
pub fn c22_unicode() {
    c22(&uni_root(param(0)).0);
}
pub fn c22_lone() {
    c22(&lone());
}
/// rules without content, empty names, texts that look like names
pub fn c22_near() {
    c22(&near().0);
}
pub fn c22_names() {
    let g = Gen { vlen: 1, nlen: 2, eof: false, vals: true };
    c22(&root(param(0), &g));
}
pub fn c22_big() {
    c22(&big());
}
pub fn c22_huge() {
    c22(&huge());
}

// ------------------------------------------------------------------ C23 navigation

fn any_node(t: Vec<char>) -> A {
    match choice(3) {
        0 => A::Eof,
        1 => A::Val(t),
        _ => {
            let n = t;
            let v = (0..choice(3)).map(|i| if i == 0 { A::Val(text(1, LO, HI)) } else { A::Rule(text(1, LO, HI), vec![]) }).collect();
            A::Rule(n, v)
        }
    }
}
fn rest_is(r: &[Node], all: &[Node]) -> bool {
    r.len() + 1 == all.len() && r.as_ptr() == all[1..].as_ptr()
}
/// a list of 0..=3 arbitrary nodes, an arbitrary wanted name or text
pub fn c23_ast() {
    let len = param(0);
    let t = text(choice(len + 1), LO, HI);
    c23_ast_of(t, text(choice(len + 1), LO, HI), param(1));
}
/// a rule with any children, and any nodes after it
pub fn c23_kids() {
    let kid = |k: usize| match k {
        0 => A::Eof,
        1 => A::Val(text(1, LO, HI)),
        2 => A::Val(vec![]),
        3 => A::Rule(text(1, LO, HI), vec![]),
        _ => A::Rule(vec!['k'], vec![A::Val(vec!['v']), A::Eof]),
    };
    let (x, y) = (ch(LO, HI), ch(LO, HI));
    let kids: Vec<A> = (0..choice(param(0) + 1)).map(|_| kid(choice(5))).collect();
    let mut v = vec![A::Rule(vec![x], kids)];
    for _ in 0..choice(param(1) + 1) {
        v.push(kid(choice(5)));
    }
    c23_ast_in(v, vec![y]);
}
/// long lists and rules with many children
pub fn c23_long() {
    let n = [4, 8, 16, 17, 33, 65, 129, 257][choice(param(0))];
    let (x, y, z) = (ch(LO, HI), ch(LO, HI), ch(LO, HI));
    let at = [0, n / 2, n - 1][choice(3)];
    let other = choice(3);
    let row: Vec<A> = (0..n)
        .map(|i| match if i == at { other } else { 3 } {
            0 => A::Eof,
            1 => A::Rule(vec![z], vec![A::Eof]),
            2 => A::Val(vec![]),
            _ => A::Val(vec![z, 'v']),
        })
        .collect();
    let v = match choice(3) {
        0 => vec![A::Rule(vec![x], row)],
        1 => row,
        _ => vec![A::Rule(vec![x], row), A::Eof, A::Val(vec![z])],
    };
    c23_ast_in(v, if flag() { vec![y] } else { vec![z, 'v'] });
}
/// over all of Unicode
pub fn c23_unicode() {
    let t = any_text(param(0));
    let want = any_text(param(0));
    if flag() {
        c23_ast_of(t, want, 2);
    } else {
        c23_flat_of(t, want, 2);
    }
}
fn any_text(n: usize) -> Vec<char> {
    (0..choice(n + 1)).map(|_| any_char()).collect()
}
/// the same text, or one character more or less
pub fn c23_near() {
    let n = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 129, 256, 257, 1025][choice(param(0))];
    let t = sparse(n, LO, HI);
    let mut want = t.clone();
    match choice(4) {
        0 => {}
        1 => {
            let at = if n < 40 { choice(n) } else { [0, n / 2, n - 1, n - 2][choice(4)] };
            want[at] = ch(LO, HI)
        }
        2 => {
            want.pop();
        }
        _ => want.push(ch(LO, HI)),
    }
    if flag() {
        c23_ast_of(t, want, 2);
    } else {
        c23_flat_of(t, want, 2);
    }
}
fn c23_ast_of(t: Vec<char>, want: Vec<char>, max: usize) {
    let n = choice(max + 1);
    // what follows, of any kind
    let v: Vec<A> = (0..n)
        .map(|i| match if i == 0 { 3 } else { choice(3) } {
            0 => A::Val(text(1, LO, HI)),
            1 => A::Eof,
            2 => A::Rule(text(1, LO, HI), vec![A::Val(text(1, LO, HI))]),
            _ => any_node(t.clone()),
        })
        .collect();
    c23_ast_in(v, want);
}
fn c23_ast_in(v: Vec<A>, want: Vec<char>) {
    let nodes: Vec<Node> = v.iter().map(node).collect();
    let w = string(&want);
    note_names(&[want.clone()]);
    for a in &v {
        note_tree(a);
    }
    let first = v.first();
    // the first node
    match (ast::split_first_nodes(&nodes), ast::peek_first_node(&nodes)) {
        (Ok((n, r)), Ok(p)) => {
            check(!v.is_empty(), 1);
            check(std::ptr::eq(n, &nodes[0]) && std::ptr::eq(p, &nodes[0]) && rest_is(r, &nodes), 2);
        }
        (Err(_), Err(_)) => check(v.is_empty(), 3),
        _ => check(false, 4),
    }
    check(ast::check_empty_nodes(&nodes).is_ok() == v.is_empty(), 5);
    // texts
    let val = match first {
        Some(A::Val(t)) => Some(t),
        _ => None,
    };
    match (ast::consume_val(&nodes), val) {
        (Ok((s, r)), Some(t)) => {
            reach(1);
            check(s == string(t).as_str(), 10);
            check(rest_is(r, &nodes), 11);
        }
        (Err(_), None) => {}
        _ => check(false, 12),
    }
    match ast::consume_this_value(&w, &nodes) {
        Ok(r) => {
            reach(2);
            check(val.is_some() && *val.unwrap() == want, 13);
            check(rest_is(r, &nodes), 14);
        }
        Err(_) => check(val.is_none() || *val.unwrap() != want, 15),
    }
    match (ast::get_nodes_unique_val(&nodes), val) {
        (Ok(s), Some(t)) => {
            reach(3);
            check(v.len() == 1, 16);
            check(s == string(t).as_str(), 17);
        }
        (Ok(_), None) => check(false, 18),
        (Err(_), _) => check(val.is_none() || v.len() != 1, 19),
    }
    // rules
    let rule = match first {
        Some(A::Rule(n, w)) => Some((n, w)),
        _ => None,
    };
    match ast::consume_node_get_subnodes_for_rule_name_is(&w, &nodes) {
        Ok((r, sub)) => {
            reach(4);
            check(rule.is_some() && *rule.unwrap().0 == want, 20);
            check(rest_is(r, &nodes), 21);
            if let Some((_, x)) = rule {
                check(sub.len() == x.len() && x.iter().zip(sub.iter()).all(|(a, n)| same(a, n)), 22);
            }
        }
        Err(_) => check(rule.is_none() || *rule.unwrap().0 != want, 23),
    }
    if let Some(n) = nodes.first() {
        match (ast::get_node_val(n), val) {
            (Ok(s), Some(t)) => check(s == string(t).as_str(), 24),
            (Err(_), None) => {}
            _ => check(false, 25),
        }
        match (ast::get_nodename_and_nodes(n), rule) {
            (Ok((s, sub)), Some((m, x))) => {
                reach(5);
                check(s == string(m).as_str(), 26);
                check(sub.len() == x.len() && x.iter().zip(sub.iter()).all(|(a, n)| same(a, n)), 27);
            }
            (Err(_), None) => {}
            _ => check(false, 28),
        }
    }
    digest(v.len() as u64);
}
fn flat_rest(r: &[flat::Node], all: &[flat::Node]) -> bool {
    r.len() + 1 == all.len() && r.as_ptr() == all[1..].as_ptr()
}
pub fn c23_flat() {
    let len = param(0);
    let t = text(choice(len + 1), LO, HI);
    c23_flat_of(t, text(choice(len + 1), LO, HI), param(1));
}
fn c23_flat_of(t: Vec<char>, want: Vec<char>, max: usize) {
    let n = choice(max + 1);
    let mut nodes = vec![];
    let mut kind = 9;
    if n > 0 {
        kind = choice(4);
        let s = string(&t);
        nodes.push(match kind {
            0 => flat::Node::Val(s),
            1 => flat::Node::BeginRule(s),
            2 => flat::Node::EndRule(s),
            _ => flat::Node::EOF,
        });
        for _ in 1..n {
            let s = string(&text(1, LO, HI));
            nodes.push(match choice(4) {
                0 => flat::Node::Val(s),
                1 => flat::Node::BeginRule(s),
                2 => flat::Node::EndRule(s),
                _ => flat::Node::EOF,
            });
        }
    }
    let w = string(&want);
    note_names(&[t.clone(), want.clone()]);
    match (flat::split_first_nodes(&nodes), flat::peek_first_node(&nodes)) {
        (Ok((a, r)), Ok(p)) => {
            check(n > 0, 1);
            check(std::ptr::eq(a, &nodes[0]) && std::ptr::eq(p, &nodes[0]) && flat_rest(r, &nodes), 2);
        }
        (Err(_), Err(_)) => check(n == 0, 3),
        _ => check(false, 4),
    }
    match flat::consume_val(&nodes) {
        Ok((s, r)) => {
            reach(1);
            check(kind == 0 && s == string(&t).as_str() && flat_rest(r, &nodes), 5);
        }
        Err(_) => check(kind != 0, 6),
    }
    let tests = [(flat::consume_this_value(&w, &nodes), 0), (flat::consume_node_start_rule_name(&w, &nodes), 1), (flat::consume_node_end_rule_name(&w, &nodes), 2)];
    for (r, k) in tests.iter() {
        match r {
            Ok(r) => {
                reach(2 + *k as u32);
                check(kind == *k && t == want, 7 + *k as u64);
                check(flat_rest(r, &nodes), 10 + *k as u64);
            }
            Err(_) => check(kind != *k || t != want, 13 + *k as u64),
        }
    }
    if let Some(x) = nodes.first() {
        match flat::get_node_val(x) {
            Ok(s) => check(kind == 0 && s == string(&t).as_str(), 16),
            Err(_) => check(kind != 0, 17),
        }
        match flat::get_nodename(x) {
            Ok(s) => check((kind == 1 || kind == 2) && s == string(&t).as_str(), 18),
            Err(_) => check(kind == 0 || kind == 3, 19),
        }
    }
    digest(n as u64);
}
