//! From PEG text to rules.
use crate::gen::*;
use crate::model::*;
use crate::norm::*;
use crate::sym::*;
use dynparser::parser::expression::SetOfRules;
use dynparser::{parse, rules_from_peg};

pub fn put(out: &mut Vec<char>, s: &str) {
    out.extend(s.chars());
}
pub fn note_text(t: &[char]) {
    if noting() {
        let s = string(t);
        note(&format!("peg text {:?}", s.chars().take(400).collect::<String>()));
    }
}

// ------------------------------------------------------------------ rendering

fn strip(g: &G) -> &G {
    match g {
        G::And(v) | G::Or(v) if v.len() == 1 => strip(&v[0]),
        g => g,
    }
}
fn r_or(g: &G, out: &mut Vec<char>) {
    match strip(g) {
        G::Or(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    put(out, " / ");
                }
                match strip(x) {
                    G::Or(_) => r_atom(x, out),
                    _ => r_and(x, out),
                }
            }
        }
        g => r_and(g, out),
    }
}
fn r_and(g: &G, out: &mut Vec<char>) {
    match strip(g) {
        G::And(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    put(out, " ");
                }
                match strip(x) {
                    G::Error(_) if i > 0 => r_error(strip(x), out),
                    x => r_rep(x, out),
                }
            }
        }
        G::Error(_) => r_error(strip(g), out),
        g => r_rep(g, out),
    }
}
fn r_error(g: &G, out: &mut Vec<char>) {
    if let G::Error(t) = g {
        put(out, "error('");
        out.extend(t.iter().copied());
        put(out, "')");
    }
}
fn r_rep(g: &G, out: &mut Vec<char>) {
    match strip(g) {
        G::Not(x) => {
            put(out, "!");
            r_atom(x, out);
        }
        G::Rep(x, a, b) => {
            r_atom(x, out);
            put(
                out,
                match (a, b) {
                    (0, None) => "*",
                    (1, None) => "+",
                    _ => "?",
                },
            );
        }
        g => r_atom(g, out),
    }
}
fn r_atom(g: &G, out: &mut Vec<char>) {
    match strip(g) {
        G::Lit(s) => {
            put(out, "'");
            out.extend(s.iter().copied());
            put(out, "'");
        }
        G::Class(c, r) => {
            put(out, "[");
            out.extend(c.iter().copied());
            for (a, b) in r {
                out.push(*a);
                out.push('-');
                out.push(*b);
            }
            put(out, "]");
        }
        G::Dot => put(out, "."),
        G::Ref(n) => put(out, n),
        g => {
            put(out, "(");
            r_or(g, out);
            put(out, ")");
        }
    }
}
fn render(rules: &Rules) -> Vec<char> {
    let mut out = vec![];
    for (n, g) in rules {
        put(&mut out, n);
        put(&mut out, " = ");
        r_or(g, &mut out);
        out.push('\n');
    }
    out
}

fn digest_set(s: &SetOfRules, rules: &Rules) {
    digest(s.0.len() as u64);
    for (n, _) in rules {
        if let Some(e) = s.0.get(*n) {
            digest_expr(e);
        }
    }
}
/// the set is exactly these rules
fn is_set(got: &dynparser::peg::Result, rules: &Rules) {
    match got {
        Err(e) => {
            if noting() {
                note(&format!("refused: {}", e.to_string().chars().take(300).collect::<String>()));
            }
            check(false, 1);
        }
        Ok(s) => {
            reach(1);
            check(s.0.len() == rules.len(), 2);
            for (n, g) in rules {
                match s.0.get(*n) {
                    None => check(false, 3),
                    Some(e) => {
                        let (a, b) = (norm_e(e), norm(g));
                        if noting() && a != b {
                            note(&format!("{} is {} and not {}", n, show_n(&a), show_n(&b)));
                        }
                        check(a == b, 4);
                    }
                }
            }
            digest_set(s, rules);
        }
    }
}
fn c12(rules: &Rules) {
    let t = render(rules);
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), rules);
}

// ------------------------------------------------------------------ C12 structure

const P_OPS: u32 = O_AND | O_OR | O_NOT | O_STAR | O_PLUS | O_OPT;
fn az(leaves: u32, ops: u32) -> Cfg {
    // no quote, no ']' and no '-'
    Cfg { leaves, ops, lo: '^', hi: '~' }
}
/// give references arbitrary names, errors arbitrary texts
fn vary(g: G) -> G {
    match g {
        G::Ref(_) => G::Ref(leak(text(2, 'a', 'z'))),
        G::Error(_) => G::Error(text(2, '(', '~')),
        G::And(v) => G::And(v.into_iter().map(vary).collect()),
        G::Or(v) => G::Or(v.into_iter().map(vary).collect()),
        G::Not(g) => G::Not(Box::new(vary(*g))),
        G::Rep(g, a, b) => G::Rep(Box::new(vary(*g)), a, b),
        g => g,
    }
}
/// every shape with few kinds of leaves
pub fn c12_trees() {
    let c = az(L_LIT1 | L_REF, P_OPS);
    let (g, _) = tree(param(0), &c);
    c12(&vec![("main", vary(g))]);
}
/// three-way groups
pub fn c12_trees3() {
    let c = az(L_LIT1, O_AND3 | O_OR3 | O_STAR | O_NOT);
    let (g, _) = tree(param(0), &c);
    c12(&vec![("main", vary(g))]);
}
/// small shapes with every kind of leaf
pub fn c12_leaves() {
    let c = az(L_LIT1 | L_LIT2 | L_EMPTY | L_CLASS | L_CHLIST | L_DOT | L_REF | L_ERR, P_OPS);
    let (g, _) = tree(param(0), &c);
    c12(&vec![("main", vary(g))]);
}
/// pairs and triples of rules: where one ends and the next begins
pub fn c12_pairs() {
    let c = az(L_LIT1 | L_DOT | L_REF | L_CLASS, O_STAR | O_NOT | O_AND | O_OR);
    let a = vary(tree(param(0), &c).0);
    let b = vary(tree(param(1), &c).0);
    let names = [["main", "b"], ["b", "main"], ["_", "main"], ["main", "a.b"], [".m.x", "main"], ["main", "3_'\""]][choice(6)];
    let mut v = vec![(names[0], a), (names[1], b)];
    if flag() {
        v.push(("zz", G::Ref("main")));
    }
    c12(&v);
}
/// a name as PEG text allows it: optional dot, symbols joined by dots
fn dotted(k: usize) -> Vec<char> {
    let mut v = vec![];
    if flag() {
        v.push('.');
    }
    for i in 0..1 + choice(k) {
        if i > 0 {
            v.push('.');
        }
        let w = ["a", "_'", "3\"Z", "error", "_"][(choice(2) + 2 * i) % 5];
        put(&mut v, w);
    }
    v
}
/// long names that differ in one character only
pub fn c12_long_names() {
    let n = [1, 2, 8, 16, 17, 24, 32, 33, 64, 65, 128, 129, 256, 257, 1025][choice(param(0))];
    let at = [0, n / 2, n - 1][choice(3)];
    let mut v = vec!['n'; n];
    if choice(2) == 1 {
        for i in (2..n).step_by(4) {
            v[i] = '.';
        }
        assume(v[n - 1] != '.' && v[at] != '.');
    }
    v[at] = ['a', 'A', '_'][choice(3)];
    let mut w = v.clone();
    w[at] = 'b';
    let (a, b) = (leak(v), leak(w));
    let g = G::And(vec![G::Ref(b), l1(ch('(', '~')), G::Ref(a)]);
    c12(&vec![(a, g), (b, G::And(vec![G::Dot, G::Ref(b)])), ("third", G::Or(vec![G::Ref(a), G::Ref(b)]))]);
}
/// defined and used names of several parts
pub fn c12_names() {
    let a = leak(dotted(param(0)));
    let b = leak(dotted(param(0)));
    assume(a != b);
    let x = ch('(', '~');
    let g = match choice(3) {
        0 => G::And(vec![G::Ref(b), l1(x)]),
        1 => G::Or(vec![star(G::Ref(b)), not(G::Ref(a))]),
        _ => G::And(vec![G::Or(vec![G::Ref(a), G::Ref(b)]), G::Dot]),
    };
    c12(&vec![(a, g), (b, G::And(vec![G::Dot, G::Ref(b)]))]);
}
/// any symbol as a reference
pub fn c12_symbols() {
    let part = |n: usize| -> Vec<char> {
        (0..n)
            .map(|i| match choice(if i == 0 { 4 } else { 5 }) {
                0 => ch('a', 'z'),
                1 => ch('A', 'Z'),
                2 => ch('0', '9'),
                3 => '_',
                _ => ['\'', '"'][choice(2)],
            })
            .collect()
    };
    let mut v = vec![];
    if flag() {
        v.push('.');
    }
    v.extend(part(1 + choice(param(0))));
    if flag() {
        v.push('.');
        v.extend(part(1 + choice(2)));
    }
    let n = leak(v);
    let g = match choice(3) {
        0 => G::Ref(n),
        1 => G::And(vec![G::Ref(n), l1('x'), G::Dot]),
        _ => G::Or(vec![plus(G::Ref(n)), G::And(vec![G::Dot, G::Ref(n)])]),
    };
    c12(&vec![("main", g)]);
}
/// large in one direction
pub fn c12_wide() {
    c12_of_size([1, 2, 3, 4, 5, 8, 9, 12, 17][choice(param(0))], choice(7));
}
/// larger still; nesting less so, reading it takes long
pub fn c12_big() {
    let k = if param(1) > 0 { param(1) - 1 } else { choice(7) };
    let n = [33, 65, 130, 257][choice(param(0))];
    let n = if k == 3 { n.min(40) } else if k == 2 { n / 2 + 2 } else { n };
    c12_of_size(n, k);
}
fn c12_of_size(n: usize, kind: usize) {
    let l = |i: usize| {
        // a symbolic character at the first, the middle and the last place
        let at = n <= 17 || i == 1 || i == n / 2 || i + 1 == n;
        match (i % 3 == 1, at) {
            (true, true) => G::Ref(leak(text(1, 'a', 'z'))),
            (true, false) => lit("x"),
            (false, true) => l1(ch('(', '~')),
            (false, false) => G::Ref("y"),
        }
    };
    let g = match kind {
        0 => G::And((0..n).map(l).collect()),
        1 => G::Or((0..n).map(l).collect()),
        2 => G::Or((0..n).map(|i| G::And(vec![l(i), star(l(i + 1)), not(G::Dot)])).collect()),
        3 => {
            // groups within groups
            let mut g = l1(ch('(', '~'));
            for i in 0..n {
                g = match i % 4 {
                    0 => G::And(vec![g, l1('y')]),
                    1 => G::Or(vec![l1('x'), g]),
                    2 => star(g),
                    _ => not(g),
                };
            }
            g
        }
        4 => G::Lit(sparse(n * 4, '(', '~')),
        5 => G::And((0..n).map(|i| if i % 2 == 0 { plus(l(2 * i)) } else { opt(G::Or(vec![G::Dot, l(i)])) }).collect()),
        _ => {
            let v: Rules = (0..n).map(|i| (name_of(i), l(i))).collect();
            c12(&v);
            return;
        }
    };
    c12(&vec![("main", g)]);
}
/// the rules of modules are there too; a repeated rule keeps the last text
pub fn c12_modules() {
    let lits: Vec<G> = (0..6).map(|_| l1(ch('(', '~'))).collect();
    let mut t = vec![];
    let rule = |t: &mut Vec<char>, n: &str, g: &G| {
        put(t, n);
        put(t, " = ");
        r_or(g, t);
        put(t, "\n");
    };
    let mut want: Rules = vec![];
    rule(&mut t, "main", &lits[0]);
    want.push(("main", lits[0].clone()));
    match choice(5) {
        0 => {
            put(&mut t, "m {\n");
            rule(&mut t, "a", &lits[1]);
            put(&mut t, "}\n");
            want.push(("a", lits[1].clone()));
        }
        1 => {
            put(&mut t, "m {\n");
            rule(&mut t, "a", &lits[1]);
            put(&mut t, "k {\n");
            rule(&mut t, "b", &lits[2]);
            put(&mut t, "}\n");
            rule(&mut t, "c", &lits[3]);
            put(&mut t, "}\n");
            rule(&mut t, "d", &lits[4]);
            want.push(("a", lits[1].clone()));
            want.push(("b", lits[2].clone()));
            want.push(("c", lits[3].clone()));
            want.push(("d", lits[4].clone()));
        }
        2 => {
            rule(&mut t, "a", &lits[1]);
            rule(&mut t, "a", &lits[2]);
            rule(&mut t, "b", &lits[3]);
            rule(&mut t, "a", &lits[4]);
            want.push(("a", lits[4].clone()));
            want.push(("b", lits[3].clone()));
        }
        3 => {
            put(&mut t, "m {\n");
            rule(&mut t, "a", &lits[1]);
            put(&mut t, "}\nk {\n");
            rule(&mut t, "b", &lits[2]);
            put(&mut t, "}\n");
            want.push(("a", lits[1].clone()));
            want.push(("b", lits[2].clone()));
        }
        _ => {
            rule(&mut t, "main", &lits[5]);
            want[0].1 = lits[5].clone();
        }
    }
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &want);
}
/// definitions and references with all kinds of names, in up to three modules
pub fn c12_nested() {
    let names = ["a", ".a", "a.b", ".a.b", "m.a", "m", ".m.n", "error_", "m'"];
    let depth = choice(4);
    let inner = choice(depth + 1);
    let (n1, n2, used) = (names[choice(names.len())], names[choice(names.len())], names[choice(param(0))]);
    let x = ch('(', '~');
    assume(x != '\'');
    let body = G::And(vec![l1(x), G::Ref(used)]);
    let mut t = vec![];
    let rule = |t: &mut Vec<char>, n: &str, g: &G| {
        put(t, n);
        put(t, " = ");
        r_or(g, t);
        put(t, "\n");
    };
    let mut want: Rules = vec![];
    rule(&mut t, "main", &G::Ref(n1));
    want.push(("main", G::Ref(n1)));
    for i in 0..depth {
        put(&mut t, ["m", "n", "m"][i]);
        put(&mut t, " {\n");
        if i + 1 < depth {
            let k = ["p", "q"][i];
            rule(&mut t, k, &G::Dot);
            want.push((k, G::Dot));
        }
    }
    rule(&mut t, n1, &body);
    for _ in 0..inner {
        put(&mut t, "}\n");
    }
    // in the same module, in one around it, or outside
    rule(&mut t, n2, &G::Dot);
    for _ in inner..depth {
        put(&mut t, "}\n");
    }
    if n1 == n2 {
        // which of the two counts is only said within one level
        assume(inner == 0);
        want.push((n1, G::Dot));
    } else {
        want.push((n1, body));
        want.push((n2, G::Dot));
    }
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &want);
}
/// the generated rules recognise what the text says
pub fn c12_parse() {
    let c = Cfg { leaves: L_LIT1 | L_CLASS | L_DOT | L_REF, ops: P_OPS, lo: 'a', hi: 'z' };
    let rules = grammar(param(0), &c);
    let inp = input(param(1), &c);
    let t = render(&rules);
    note_text(&t);
    note_case(&rules, &inp);
    match rules_from_peg(&string(&t)) {
        Err(_) => check(false, 1),
        Ok(s) => {
            let r = parse(&string(&inp), &s);
            match oracle(&rules, &inp) {
                Verdict::Accept(t) => {
                    reach(1);
                    check(r.is_ok(), 2);
                    if let Ok(n) = &r {
                        check(same_tree(&t, n), 3);
                    }
                }
                _ => {
                    reach(2);
                    check(r.is_err(), 4);
                }
            }
            digest_result(&r);
        }
    }
}

// ------------------------------------------------------------------ C13 literals

/// one rule holding one literal
fn c13(text: Vec<char>, means: Vec<char>) {
    let kind = choice(3);
    let (mut t, want): (Vec<char>, Rules) = match kind {
        0 => (chars("main = "), vec![("main", G::Lit(means))]),
        1 => (chars("main = 'x' "), vec![("main", G::And(vec![l1('x'), G::Lit(means)]))]),
        _ => (chars("main = error("), vec![("main", G::Error(means))]),
    };
    t.extend(text);
    put(&mut t, if kind == 2 { ")\n" } else { "\n" });
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &want);
}
/// between single quotes every character stands for itself
pub fn c13_single() {
    let s: Vec<char> = (0..choice(param(0) + 1)).map(|_| any_char()).collect();
    for c in &s {
        assume(*c != '\'');
    }
    let mut t = vec!['\''];
    t.extend(s.iter().copied());
    t.push('\'');
    c13(t, s);
}
/// one element of a double quoted literal
fn element(t: &mut Vec<char>, s: &mut Vec<char>) {
    match choice(8) {
        0 => {
            put(t, "\\r");
            s.push('\r');
        }
        1 => {
            put(t, "\\n");
            s.push('\n');
        }
        2 => {
            put(t, "\\t");
            s.push('\t');
        }
        3 => {
            put(t, "\\\\");
            s.push('\\');
        }
        4 => {
            put(t, "\\\"");
            s.push('"');
        }
        5 => {
            // two hexadecimal digits
            let mut v = 0u32;
            put(t, "\\0x");
            for _ in 0..2 {
                let d = if flag() { ch('0', '9') } else { ch('A', 'F') };
                let x = d as u32;
                v = v * 16 + if x <= '9' as u32 { x - '0' as u32 } else { x - 'A' as u32 + 10 };
                t.push(d);
            }
            s.push(unsafe { char::from_u32_unchecked(v) });
        }
        6 => {
            let c = ch(' ', '~');
            assume(c != '"' && c != '\\');
            t.push(c);
            s.push(c);
        }
        _ => {
            let c = any_char();
            assume(c != '"' && c != '\\');
            t.push(c);
            s.push(c);
        }
    }
}
pub fn c13_double() {
    let mut t = vec!['"'];
    let mut s = vec![];
    for _ in 0..choice(param(0) + 1) {
        element(&mut t, &mut s);
    }
    t.push('"');
    c13(t, s);
}
/// the same two literals in a row do not run into each other
pub fn c13_mixed() {
    let a = text(2, '#', '&');
    let (mut t, mut s) = (vec!['"'], vec![]);
    element(&mut t, &mut s);
    t.push('"');
    let mut all = chars("main = ");
    let mut want = vec![];
    for i in 0..2 + choice(2) {
        if i > 0 {
            put(&mut all, " ");
        }
        if i % 2 == 0 {
            all.push('\'');
            all.extend(a.iter().copied());
            all.push('"');
            all.push('\'');
            let mut w = a.clone();
            w.push('"');
            want.push(G::Lit(w));
        } else {
            all.extend(t.iter().copied());
            want.push(G::Lit(s.clone()));
        }
    }
    put(&mut all, "\n");
    note_text(&all);
    is_set(&rules_from_peg(&string(&all)), &vec![("main", G::And(want))]);
}
pub fn c13_long() {
    let n = [3, 7, 8, 9, 16, 17, 31, 33, 64, 129, 257, 1025][choice(param(0))];
    let s = sparse(n, '(', '~');
    let at = choice(n.min(4));
    match choice(2) {
        0 => {
            let mut t = vec!['\''];
            t.extend(s.iter().copied());
            t.push('\'');
            c13(t, s);
        }
        _ => {
            let mut t = vec!['"'];
            let mut w = vec![];
            for i in 0..n {
                if i % 5 == at {
                    element_fixed(i, &mut t, &mut w);
                } else {
                    let c = if i < 4 || i == n / 2 || i + 2 > n { ch('a', 'z') } else { 'y' };
                    t.push(c);
                    w.push(c);
                }
            }
            t.push('"');
            c13(t, w);
        }
    }
}
/// contents that look like something else: comments, definitions, other notations
const LOOKS: [&str; 40] = [
    "/**/", "/* */", "/*x*/", "//", "// x", "a // b", "*/", "/*", "/**", "main = x", "a=b", "error(x)", "error", "(a/b)*", "[a-z]", "!a", ".", "..", "{", "}", "m{a=b}", "\\x41", "\\u0041", "\\u{41}", "&amp;", "%20", "%s", "{}",
    "$1", "${x}", "#", "#{x}", "\t", "\n", "\r\n", "  ", " a ", "\\ ", "0x41", "\u{feff}",
];
/// one of those, with a symbolic character before or after it, or doubled
pub fn c13_looks() {
    let k = LOOKS[choice(LOOKS.len())];
    let x = ch('\u{20}', '\u{7e}');
    assume(x != '\'' && x != '"' && x != '\\');
    let mut w = vec![];
    match choice(4) {
        0 => put(&mut w, k),
        1 => {
            w.push(x);
            put(&mut w, k);
        }
        2 => {
            put(&mut w, k);
            w.push(x);
        }
        _ => {
            put(&mut w, k);
            w.push(x);
            put(&mut w, k);
        }
    }
    let double = flag();
    let q = if double { '"' } else { '\'' };
    let mut t = vec![q];
    for c in &w {
        if double && *c == '\\' {
            t.push('\\');
        }
        t.push(*c);
    }
    t.push(q);
    c13(t, w);
}
fn element_fixed(i: usize, t: &mut Vec<char>, w: &mut Vec<char>) {
    let (a, b) = [("\\n", '\n'), ("\\\\", '\\'), ("\\0x41", 'A'), ("\\\"", '"'), ("\\0xE9", 'é'), ("\\t", '\t')][i % 6];
    put(t, a);
    w.push(b);
}

// ------------------------------------------------------------------ C14 classes

/// [chars and ranges] matches exactly one of those characters
fn c14(cs: Vec<char>, rs: Vec<(char, char)>, x: char) {
    let mut t = chars("main = [");
    t.extend(cs.iter().copied());
    for (a, b) in &rs {
        t.push(*a);
        t.push('-');
        t.push(*b);
    }
    put(&mut t, "]\n");
    note_text(&t);
    let mut m = false;
    for c in &cs {
        m |= *c == x;
    }
    for (a, b) in &rs {
        m |= (*a <= x) & (x <= *b);
    }
    match rules_from_peg(&string(&t)) {
        Err(_) => check(false, 1),
        Ok(s) => {
            check(s.0.len() == 1, 2);
            if noting() {
                note(&format!("on {:?}", x));
            }
            let r = parse(&string(&[x]), &s);
            if m {
                reach(1);
                check(r.is_ok(), 3);
            } else {
                reach(2);
                check(r.is_err(), 4);
            }
            digest(r.is_ok() as u64);
        }
    }
}
/// what can be written as a class: a listed character is not ']' and not followed by '-'
fn c14_written(cs: &[char], rs: &[(char, char)]) {
    assume(cs.len() + rs.len() > 0);
    for (i, c) in cs.iter().enumerate() {
        assume(*c != ']');
        if i > 0 {
            assume(*c != '-');
        }
    }
    if let (Some(r), true) = (rs.first(), !cs.is_empty()) {
        assume(r.0 != '-');
    }
}
pub fn c14_classes() {
    let cs: Vec<char> = (0..choice(param(0) + 1)).map(|_| ch('\u{0}', '\u{7f}')).collect();
    let n = choice(param(1) + 1);
    let rs: Vec<(char, char)> = (0..n).map(|_| (ch('\u{0}', '\u{7f}'), ch('\u{0}', '\u{7f}'))).collect();
    c14_written(&cs, &rs);
    c14(cs, rs, ch('\u{0}', '\u{7f}'));
}
/// contents that look like escapes, negations or other notations
const CLASSES: [&str; 36] = [
    "^", "^a", "^^", "\\", "\\n", "\\t", "\\r", "\\\\", "\\x5D", "\\0x41", "\\u{41}", "\\u0041", "\\d", "\\w", "\\s", "\\S", ":alpha:", "[:alpha:", "&&", "||", "!", "..", ",", "a,b", " ", "a b", "'", "\"", "'a'", "[", "[[",
    "//", "/*", "/*x*/", "\n", "\r\n",
];
pub fn c14_looks() {
    let mut cs = vec![];
    let k = CLASSES[choice(CLASSES.len())];
    let c = ch('\u{0}', '\u{7f}');
    match choice(4) {
        0 => put(&mut cs, k),
        1 => {
            cs.push(c);
            put(&mut cs, k);
        }
        2 => {
            put(&mut cs, k);
            cs.push(c);
        }
        _ => {
            put(&mut cs, k);
            put(&mut cs, k);
        }
    }
    let rs: Vec<(char, char)> = match choice(3) {
        0 => vec![],
        1 => vec![(ch('\u{0}', '\u{7f}'), ch('\u{0}', '\u{7f}'))],
        _ => vec![('a', '\\'), ('^', 'n')],
    };
    c14_written(&cs, &rs);
    c14(cs, rs, ch('\u{0}', '\u{7f}'));
}
/// any Unicode characters in the class and in the input
pub fn c14_unicode() {
    let cs: Vec<char> = (0..choice(2)).map(|_| any_char()).collect();
    let rs: Vec<(char, char)> = (0..choice(2)).map(|_| (any_char(), any_char())).collect();
    c14_written(&cs, &rs);
    c14(cs, rs, any_char());
}
/// many characters, many ranges
pub fn c14_wide() {
    let n = [0, 1, 2, 5, 9, 17, 33, 65, 129, 257][choice(param(0))];
    let m = [0, 1, 2, 3, 5, 9, 17, 33][choice(param(1))];
    assume(n + m > 0);
    let cs = sparse(n, '^', '~');
    let rs: Vec<(char, char)> = (0..m).map(|_| (ch('^', '~'), ch('^', '~'))).collect();
    c14(cs, rs, ch('^', '~'));
}

// ------------------------------------------------------------------ C15 layout

fn free(t: &mut Vec<char>) {
    // anything but the end of a line
    let c = any_char();
    assume(c != '\n' && c != '\r');
    t.push(c);
}
/// blanks, ends of line and comments; `first` restricts what it may begin with
fn layout(k: usize, t: &mut Vec<char>) {
    match k {
        0 => {}
        1 => put(t, " "),
        2 => put(t, "   "),
        3 => put(t, "\n"),
        4 => put(t, "\r\n"),
        5 => put(t, "\r"),
        6 => {
            put(t, " //");
            free(t);
            free(t);
            put(t, "\n");
        }
        7 => {
            put(t, " /*");
            let a = any_char();
            let b = any_char();
            assume(!((a == '*') & (b == '/')));
            t.push(a);
            t.push(b);
            put(t, "*/");
        }
        8 => put(t, " /**/ "),
        9 => put(t, " //\n\n  // a = 'b'\r\n /* c\n** / */\n "),
        10 => put(t, "\n    "),
        11 => put(t, " // don't \"/* [\n"),
        12 => put(t, " /* // ' */"),
        // without the blank in front
        13 => {
            put(t, "//");
            free(t);
            put(t, "\n");
        }
        14 => put(t, "/* x\n */"),
        15 => put(t, "//\r\n"),
        // each kind of line end ends a comment
        _ => {
            put(t, "//");
            free(t);
            put(t, ["\r", "\r\n"][choice(2)]);
        }
    }
}
const LAYOUTS: usize = 17;
const BLANK_FIRST: usize = 13;

#[derive(Clone, Copy, PartialEq)]
enum Gap {
    /// may be empty
    Opt,
    /// between two members of a sequence
    Seq,
    /// ends a rule
    End,
}
/// the places of a fixed grammar where layout is free
type Template = (Vec<(&'static str, Gap)>, Rules);
fn template() -> Template {
    use Gap::*;
    let t = vec![
        ("", Opt), ("main", Opt), ("=", Opt), ("'a'", Seq), ("b", Opt), ("/", Opt), ("(", Opt), ("!'c'", Seq), (".", Opt), ("/", Opt), ("[x-z]+", Opt),
        (")", Seq), ("c?", End), ("b", Opt), ("=", Opt), ("\"\\n\"", Opt), ("/", Opt), ("error", Opt), ("(", Opt), ("'no'", Opt), (")", End), ("c", Opt),
        ("=", Opt), ("'//'*", End),
    ];
    let means = vec![
        (
            "main",
            G::Or(vec![
                G::And(vec![l1('a'), G::Ref("b")]),
                G::And(vec![G::Or(vec![G::And(vec![not(l1('c')), G::Dot]), plus(class('x', 'z'))]), opt(G::Ref("c"))]),
            ]),
        ),
        ("b", G::Or(vec![l1('\n'), G::Error(chars("no"))])),
        ("c", star(lit("//"))),
    ];
    (t, means)
}
/// modules, literals and classes next to everything, rules that end in any kind of atom
fn template2() -> Template {
    use Gap::*;
    let t = vec![
        ("", Opt), ("m", Opt), ("{", Opt), ("a", Opt), ("=", Opt), ("[/*]", Seq), ("\"*/\"", Seq), ("'/'", End), (".k.e", Opt), ("=", Opt), (".k.e", Seq), (".", End),
        ("n", Opt), ("{", Opt), ("o", Opt), ("=", Opt), (".", Seq), ("error", Opt), ("(", Opt), ("\"//\"", Opt), (")", End), ("}", End), ("}", End),
    ];
    let means = vec![
        ("a", G::And(vec![G::Class(chars("/*"), vec![]), lit("*/"), lit("/")])),
        (".k.e", G::And(vec![G::Ref(".k.e"), G::Dot])),
        ("o", G::And(vec![G::Dot, G::Error(chars("//"))])),
    ];
    (t, means)
}
fn template3() -> Template {
    use Gap::*;
    let t = vec![
        ("", Opt), ("p", Opt), ("=", Opt), ("(", Opt), ("(", Opt), ("q", Opt), (")", Opt), (")", End), ("r", Opt), ("=", Opt), ("'='", Seq), ("[=-=]", Seq), ("!(", Opt), ("s", Seq), ("'{'", Opt), (")", End),
    ];
    let means = vec![
        ("p", G::Ref("q")),
        ("r", G::And(vec![l1('='), class('=', '='), not(G::And(vec![G::Ref("s"), l1('{')]))])),
    ];
    (t, means)
}
fn c15(tmp: &Template, special: &[(usize, usize)]) {
    let mut t = vec![];
    for (i, (tok, gap)) in tmp.0.iter().enumerate() {
        put(&mut t, tok);
        let k = special.iter().find(|x| x.0 == i).map(|x| x.1);
        match (gap, k) {
            (Gap::Opt, Some(k)) => {
                // a '/' and a comment right after it would be another comment
                if *tok == "/" && k >= BLANK_FIRST {
                    put(&mut t, " ");
                }
                layout(k, &mut t)
            }
            (Gap::Opt, None) => {}
            (Gap::Seq, Some(k)) => {
                let k = if k == 0 { 1 } else { k };
                if k >= BLANK_FIRST {
                    put(&mut t, " ");
                }
                layout(k, &mut t);
            }
            (Gap::Seq, None) => put(&mut t, " "),
            (Gap::End, Some(k)) => {
                // a comment may stand before the end of the line, anything after it
                if flag() {
                    let k = [0, 1, 2, 7, 8, 12, 6, 13, 15][k % 9];
                    layout(k, &mut t);
                    put(&mut t, "\n");
                } else {
                    put(&mut t, "\n");
                    layout(k, &mut t);
                }
            }
            (Gap::End, None) => put(&mut t, "\n"),
        }
    }
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &tmp.1);
}
/// one place gets any of the layouts
pub fn c15_one() {
    let t = template();
    let i = choice(t.0.len());
    c15(&t, &[(i, choice(LAYOUTS))]);
}
pub fn c15_module() {
    let t = if flag() { template2() } else { template3() };
    let i = choice(t.0.len());
    c15(&t, &[(i, choice(LAYOUTS))]);
}
/// two neighbouring places
pub fn c15_two() {
    let t = [template, template2, template3][choice(3)]();
    let i = choice(t.0.len() - 1);
    let set = [3, 13, 14, 1, 9, 11, 15, 7];
    let a = set[choice(param(0))];
    let b = set[choice(param(0))];
    c15(&t, &[(i, a), (i + 1, b)]);
}
/// all places at once
pub fn c15_all() {
    let tmp = [template, template2, template3][choice(3)]();
    let k = choice(LAYOUTS);
    // only concrete ones everywhere
    let k = match k {
        6 | 13 | 16 => 11,
        7 => 8,
        k => k,
    };
    let mut t = vec![];
    for (tok, gap) in &tmp.0 {
        put(&mut t, tok);
        match gap {
            Gap::Opt => {
                if *tok == "/" {
                    put(&mut t, " ");
                }
            }
            Gap::Seq => put(&mut t, " "),
            Gap::End => put(&mut t, "\n"),
        }
        layout(k, &mut t);
    }
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &tmp.1);
}
/// a comment with any text, also one that looks like the end of something
pub fn c15_comment() {
    let n = choice(param(0) + 1);
    let c: Vec<char> = (0..n).map(|_| ch('\u{0}', '\u{7f}')).collect();
    c15_comment_of(c);
}
pub fn c15_comment_unicode() {
    let n = choice(param(0) + 1);
    c15_comment_of((0..n).map(|_| any_char()).collect());
}
/// long comments, with what ends others inside
pub fn c15_comment_long() {
    let n = [1, 7, 15, 31, 64, 130, 257, 1025][choice(param(0))];
    let mut c = vec![];
    for i in 0..n {
        c.push(['*', '/', '\'', '*', '"', ' ', '(', '[', '=', '{'][(i * 7 + n) % 10]);
    }
    c[n / 2] = ch('\u{0}', '\u{7f}');
    c[n - 1] = ch('\u{0}', '\u{7f}');
    c15_comment_of(c);
}
fn c15_comment_of(c: Vec<char>) {
    let (mut t, k) = (vec![], choice(6));
    let line = k % 2 == 0;
    let n = c.len();
    for i in 0..n {
        if line {
            assume(c[i] != '\n' && c[i] != '\r');
        } else if i + 1 < n {
            // it ends at the first */
            assume(!((c[i] == '*') & (c[i + 1] == '/')));
        }
    }
    match k / 2 {
        0 => {}
        1 => put(&mut t, "main = 'a' "),
        _ => put(&mut t, "main "),
    }
    put(&mut t, if line { "//" } else { "/*" });
    t.extend(c);
    put(&mut t, if line { ["", "\r", "\r\n"][choice(3)] } else { "*/" });
    put(&mut t, ["\nmain = 'a'\nb = 'c'\n", "\nb = 'c'\n", "\n= 'a'\nb = 'c'\n"][k / 2]);
    note_text(&t);
    is_set(&rules_from_peg(&string(&t)), &vec![("main", l1('a')), ("b", l1('c'))]);
}

// ------------------------------------------------------------------ C16 any text

fn c16(t: &[char]) {
    note_text(t);
    match rules_from_peg(&string(t)) {
        Ok(s) => {
            reach(1);
            check(!s.0.is_empty(), 1);
            digest(s.0.len() as u64);
        }
        Err(e) => {
            reach(2);
            check(!e.to_string().is_empty(), 2);
            // a position inside the text
            let mut e = &e;
            loop {
                match e {
                    dynparser::peg::Error::Peg((_, Some(b))) => e = b,
                    dynparser::peg::Error::Parser(p) => {
                        reach(3);
                        check(p.pos.n <= t.len(), 3);
                        digest(p.pos.n as u64);
                        break;
                    }
                    _ => {
                        // whatever the grammar of grammars accepts is turned into rules
                        check(false, 4);
                        break;
                    }
                }
            }
        }
    }
}
pub fn c16_any() {
    let n = choice(param(0) + 1);
    let t = text(n, '\u{0}', '\u{7f}');
    c16(&t);
}
pub fn c16_unicode() {
    let n = choice(param(0) + 1);
    let t: Vec<char> = (0..n).map(|_| any_char()).collect();
    let mut v = chars("a=");
    v.extend(t);
    if flag() {
        v.push('\n');
    }
    c16(&v);
}
/// an ASCII character; a character of a rule name is enumerated (it gets hashed), others stay symbolic
pub fn ascii(all: bool) -> char {
    let c = ch('\u{0}', '\u{7f}');
    let name = (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c >= '0') & (c <= '9') | (c == '_') | (c == '.');
    if name {
        let t = if all { "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_." } else { "ax0AGn9_." };
        let t = chars(t);
        return t[choice(t.len())];
    }
    c
}
pub const BASES: [&str; 12] = [
    "main = 'a' [b-c] \"d\\n\"\n",
    "r=!(a/.)* /*x*/\nb=error('x')\n",
    "m{\na.b=\"\\0x41\"?\n}\n",
    "a=[xy]/'' .b//c\n",
    "a=('b'/('c' d)+)? !e\n",
    "a=b\r\nn {\r\nc='d'\r\n}\r\n",
    "x=error(\"n\")/y error('z')\n",
    "a=[-][a-]][\"-']\n",
    "_'=\"\\\"\\\\\\r\\t\"\n",
    "\n // z\na = b / c\n / d\n",
    ".a.b=a.b .\na=.\n",
    "a=b\nc{\nd=.\n}\nd='e'\n",
];
/// a correct text in which characters are put in at, or instead of, any place, or that is cut off there
pub fn mutant(base: &str, n: usize, uni: bool) -> Vec<char> {
    let base = chars(base);
    let at = choice(base.len() + 1);
    let mut t: Vec<char> = base[..at].to_vec();
    for _ in 0..n {
        t.push(if uni { any_char_but_ascii() } else { ascii(n == 1) });
    }
    match choice(3) {
        0 => t.extend(base[at..].iter().copied()),
        1 => t.extend(base[at..].iter().copied().skip(1)),
        _ => {}
    }
    t
}
fn any_char_but_ascii() -> char {
    let (lo, hi) = [(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)][choice(4)];
    unsafe { char::from_u32_unchecked(range(lo, hi) as u32) }
}
/// one piece of a correct text left out, or put twice
pub fn cut(base: &str) -> Vec<char> {
    let b = chars(base);
    let i = choice(b.len());
    let j = i + 1 + choice(b.len() - i);
    let mut t: Vec<char> = b[..i].to_vec();
    if flag() {
        t.extend(b[i..j].iter().copied());
        t.extend(b[i..j].iter().copied());
    }
    t.extend(b[j..].iter().copied());
    t
}
/// p0 characters, the first p1 texts
pub fn c16_mutant() {
    let t = mutant(BASES[choice(param(1))], param(0), false);
    c16(&t);
}
pub fn c16_mutant_unicode() {
    let t = mutant(BASES[choice(param(1))], param(0), true);
    c16(&t);
}
/// a character of several bytes put in anywhere, and a mistake after it
pub fn pair(base: &str) -> Vec<char> {
    let b = chars(base);
    let i = choice(b.len());
    let j = i + choice(b.len() + 1 - i);
    let mut t: Vec<char> = b[..i].to_vec();
    let (lo, hi) = [(0x10000, 0x10ffff), (0x80, 0x7ff), (0x800, 0xd7ff)][choice(param(2))];
    t.push(unsafe { char::from_u32_unchecked(range(lo, hi) as u32) });
    t.extend(b[i..j].iter().copied());
    match choice(3) {
        0 => {}
        1 => t.extend(b[j..].iter().copied().skip(1)),
        _ => {
            t.push(ch('!', '/'));
            t.extend(b[j..].iter().copied());
        }
    }
    t
}
pub fn c16_pair() {
    c16(&pair(BASES[param(0) + choice(param(1))]));
}
pub fn c16_cut() {
    c16(&cut(BASES[choice(BASES.len())]));
}
/// deep and long texts
pub fn c16_deep() {
    let n = [1, 5, 10, 20, 40, 130, 257][choice(param(0))];
    let mut t = chars("main = ");
    let x = ch('\u{0}', '\u{7f}');
    match choice(8) {
        // modules in modules, the innermost with the character, or all but one closed
        5 => {
            t = vec![];
            for _ in 0..n {
                put(&mut t, "m{\n");
            }
            put(&mut t, "a=");
            t.push(x);
            put(&mut t, "\n");
            for _ in 0..n - choice(2) {
                put(&mut t, "}\n");
            }
        }
        // many rules, many modules side by side
        6 => {
            t = vec![];
            for i in 0..n {
                put(&mut t, if i % 3 == 2 { "m{ a='b'\n}\n" } else { "a.b = c\n" });
            }
            t.push(x);
            put(&mut t, "='b'");
        }
        // a name of many parts, a long name
        7 => {
            for _ in 0..n {
                put(&mut t, "abc.");
            }
            t.push(x);
            t.extend(vec!['z'; n]);
        }
        0 => {
            let n = n.min(60);
            t.extend(vec!['('; n]);
            t.push(x);
            t.extend(vec![')'; n - choice(2)]);
        }
        1 => {
            for _ in 0..n {
                put(&mut t, "a / ");
            }
            t.push(x);
        }
        2 => {
            for _ in 0..n {
                put(&mut t, "'b' ");
            }
            t.push(x);
        }
        3 => {
            t.push('\'');
            t.extend(vec!['c'; n * 2]);
            t.push(x);
        }
        _ => {
            t.push('[');
            t.extend(vec!['c'; n * 2]);
            t.push(x);
            put(&mut t, "]");
        }
    }
    put(&mut t, "\n");
    c16(&t);
}

// ------------------------------------------------------------------ C17 the grammar of grammars

const GRAMMAR: &str = include_str!(env!("DYN_GRAMMAR"));

fn own() -> SetOfRules {
    match rules_from_peg(GRAMMAR) {
        Ok(s) => s,
        Err(_) => {
            check(false, 100);
            panic!();
        }
    }
}
/// the published grammar of grammars accepts exactly what rules_from_peg accepts
fn c17(g: &SetOfRules, t: &[char]) {
    note_text(t);
    let s = string(t);
    let a = parse(&s, g).is_ok();
    let b = rules_from_peg(&s).is_ok();
    if a {
        reach(1);
        check(b, 1);
    } else {
        reach(2);
        check(!b, 2);
    }
    digest(a as u64);
}
pub fn c17_any() {
    let g = own();
    let n = choice(param(0) + 1);
    let t = text(n, '\u{0}', '\u{7f}');
    c17(&g, &t);
}
pub fn c17_mutant() {
    let g = own();
    let t = mutant(BASES[param(2) + choice(param(1))], param(0), false);
    c17(&g, &t);
}
pub fn c17_mutant_unicode() {
    let g = own();
    let t = mutant(BASES[choice(param(1))], param(0), true);
    c17(&g, &t);
}
pub fn c17_cut() {
    let g = own();
    c17(&g, &cut(BASES[param(2) + choice(param(1))]));
}
/// it accepts itself and yields itself
pub fn c17_self() {
    let g = own();
    let r = parse(GRAMMAR, &g);
    check(r.is_ok(), 1);
    check(g.0.len() > 20, 2);
    reach(1);
}

/// tokens in any order
pub fn c17_tokens() {
    let g = own();
    c17(&g, &crate::h_read::tokens(param(0)));
}
/// beginnings, and short ends of any characters
pub fn c17_tail() {
    let g = own();
    c17(&g, &crate::h_read::tail(param(0)));
}
/// what other notations have, put in anywhere
pub fn c17_foreign() {
    let g = own();
    c17(&g, &crate::h_read::foreign(BASES[param(0) + choice(param(1))]));
}
/// the same after much other work in the same process
pub fn c12_after() {
    crate::h_core::exercise(choice(7), param(1));
    c12_trees();
}
