//! Symbolic grammars and inputs: shapes by forking, leaves and text as solver variables.
use crate::model::*;
use crate::sym::*;

pub const L_LIT1: u32 = 1;
pub const L_LIT2: u32 = 2;
pub const L_EMPTY: u32 = 4;
pub const L_CLASS: u32 = 8;
pub const L_DOT: u32 = 16;
pub const L_REF: u32 = 32;
pub const L_ERR: u32 = 64;
pub const L_EOF: u32 = 128;
pub const L_MISSING: u32 = 256;
pub const L_CHLIST: u32 = 512;
pub const L_NOAND: u32 = 1024; // a sequence of nothing
pub const L_NOOR: u32 = 2048; // a choice of nothing

pub const O_AND: u32 = 1;
pub const O_OR: u32 = 2;
pub const O_NOT: u32 = 4;
pub const O_STAR: u32 = 8;
pub const O_PLUS: u32 = 16;
pub const O_OPT: u32 = 32;
pub const O_BOUND: u32 = 64; // 1..2
pub const O_ZERO: u32 = 128; // 0..0
pub const O_OR3: u32 = 256;
pub const O_AND3: u32 = 512;
pub const O_OR1: u32 = 1024; // groups of one
pub const O_AND1: u32 = 2048;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub leaves: u32,
    pub ops: u32,
    pub lo: char,
    pub hi: char,
}

fn pick(mask: u32) -> u32 {
    let n = mask.count_ones() as usize;
    let mut k = choice(n);
    let mut m = mask;
    loop {
        let b = m & m.wrapping_neg();
        if k == 0 {
            return b;
        }
        k -= 1;
        m &= m - 1;
    }
}

pub fn leaf(kind: u32, c: &Cfg) -> G {
    match kind {
        L_LIT1 => G::Lit(text(1, c.lo, c.hi)),
        L_LIT2 => G::Lit(text(2, c.lo, c.hi)),
        L_EMPTY => G::Lit(vec![]),
        L_CLASS => G::Class(vec![], vec![(ch(c.lo, c.hi), ch(c.lo, c.hi))]),
        L_CHLIST => G::Class(text(2, c.lo, c.hi), vec![]),
        L_DOT => G::Dot,
        L_REF => G::Ref("r"),
        L_ERR => G::Error(chars("boom")),
        L_EOF => G::Eof,
        L_NOAND => G::And(vec![]),
        L_NOOR => G::Or(vec![]),
        _ => G::Ref("nowhere"),
    }
}

/// every tree of at most `budget` nodes, once; returns the nodes used
pub fn tree(budget: usize, c: &Cfg) -> (G, usize) {
    let mut ops = 0;
    if budget >= 2 {
        ops |= c.ops & (O_NOT | O_STAR | O_PLUS | O_OPT | O_BOUND | O_ZERO | O_OR1 | O_AND1);
    }
    if budget >= 3 {
        ops |= c.ops & (O_AND | O_OR);
    }
    if budget >= 4 {
        ops |= c.ops & (O_AND3 | O_OR3);
    }
    let p = pick(c.leaves | ops << 16);
    if p < 1 << 16 {
        return (leaf(p, c), 1);
    }
    let p = p >> 16;
    match p {
        O_AND | O_OR => {
            let (a, n) = tree(budget - 2, c);
            let (b, m) = tree(budget - 1 - n, c);
            let v = vec![a, b];
            (if p == O_AND { G::And(v) } else { G::Or(v) }, n + m + 1)
        }
        O_AND3 | O_OR3 => {
            let (a, n) = tree(budget - 3, c);
            let (b, m) = tree(budget - 2 - n, c);
            let (d, k) = tree(budget - 1 - n - m, c);
            let v = vec![a, b, d];
            (if p == O_AND3 { G::And(v) } else { G::Or(v) }, n + m + k + 1)
        }
        _ => {
            let (a, n) = tree(budget - 1, c);
            if p == O_OR1 || p == O_AND1 {
                let v = vec![a];
                return (if p == O_AND1 { G::And(v) } else { G::Or(v) }, n + 1);
            }
            let b = Box::new(a);
            let g = match p {
                O_NOT => G::Not(b),
                O_STAR => G::Rep(b, 0, None),
                O_PLUS => G::Rep(b, 1, None),
                O_OPT => G::Rep(b, 0, Some(1)),
                O_BOUND => G::Rep(b, 1, Some(2)),
                _ => G::Rep(b, 0, Some(0)),
            };
            (g, n + 1)
        }
    }
}

/// main = a tree; r = a fixed little rule with symbolic text
pub fn grammar(budget: usize, c: &Cfg) -> Rules {
    let (g, _) = tree(budget, c);
    let mut v = vec![("main", g)];
    if c.leaves & L_REF != 0 && uses_ref(&v[0].1) {
        // r = x y / x    (x, y symbolic)
        let x = ch(c.lo, c.hi);
        let y = ch(c.lo, c.hi);
        v.push(("r", G::Or(vec![G::And(vec![G::Lit(vec![x]), G::Lit(vec![y])]), G::Class(vec![x], vec![])])));
    }
    v
}

fn uses_ref(g: &G) -> bool {
    match g {
        G::Ref(n) => *n == "r",
        G::And(v) | G::Or(v) => v.iter().any(uses_ref),
        G::Not(g) | G::Rep(g, _, _) => uses_ref(g),
        _ => false,
    }
}

/// an input of 0..=max symbolic characters
pub fn input(max: usize, c: &Cfg) -> Vec<char> {
    let n = choice(max + 1);
    text(n, c.lo, c.hi)
}

pub const NAMES: [&str; 64] = [
    "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19",
    "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38",
    "n39", "n40", "n41", "n42", "n43", "n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55", "n56", "n57",
    "n58", "n59", "n60", "n61", "n62", "n63",
];

pub fn lit(s: &str) -> G {
    G::Lit(chars(s))
}
pub fn l1(c: char) -> G {
    G::Lit(vec![c])
}
pub fn star(g: G) -> G {
    G::Rep(Box::new(g), 0, None)
}
pub fn plus(g: G) -> G {
    G::Rep(Box::new(g), 1, None)
}
pub fn opt(g: G) -> G {
    G::Rep(Box::new(g), 0, Some(1))
}
pub fn not(g: G) -> G {
    G::Not(Box::new(g))
}
pub fn class(a: char, b: char) -> G {
    G::Class(vec![], vec![(a, b)])
}

fn size_of(k: usize) -> usize {
    [1, 2, 3, 5, 8, 9, 12, 16, 17, 24, 33, 48, 64, 65][k]
}

pub const WIDE: usize = 16;

/// grammars that are large in one direction
pub fn wide(c: &Cfg) -> (Rules, Vec<char>) {
    wide_k(choice(WIDE), c)
}
pub fn wide_k(k: usize, c: &Cfg) -> (Rules, Vec<char>) {
    let (lo, hi) = (c.lo, c.hi);
    match k {
        // a long sequence of one-character literals
        0 => {
            let n = size_of(choice(12));
            let t = text(n, lo, hi);
            let g = G::And(t.iter().map(|x| l1(*x)).collect());
            let m = choice(3);
            let inp = text(n + 1 - m.min(n), lo, hi);
            (vec![("main", g)], inp)
        }
        // a long literal
        1 => {
            let n = size_of(choice(14));
            let g = G::Lit(text(n, lo, hi));
            let m = choice(3);
            (vec![("main", g)], text(n + 1 - m.min(n), lo, hi))
        }
        // many alternatives, then a tail
        2 => {
            let n = size_of(choice(11));
            let alts: Vec<G> = (0..n)
                .map(|i| if i % 3 == 2 { lit("zz") } else { l1(ch(lo, hi)) })
                .collect();
            let g = G::And(vec![G::Or(alts), l1(ch(lo, hi))]);
            (vec![("main", g)], text(2, lo, hi))
        }
        // alternatives that share longer and longer prefixes
        3 => {
            let n = size_of(choice(7));
            let x = ch(lo, hi);
            let y = ch(lo, hi);
            let alts: Vec<G> = (0..n)
                .map(|i| {
                    let mut v = vec![x; n - i];
                    v.push(y);
                    G::Lit(v)
                })
                .collect();
            let m = choice(n + 1);
            let mut inp = vec![x; m];
            inp.push(ch(lo, hi));
            (vec![("main", G::Or(alts))], inp)
        }
        // a chain of rules
        4 => {
            let n = size_of(choice(12)).min(60);
            let x = ch(lo, hi);
            let mut v: Rules = vec![("main", G::Ref(NAMES[0]))];
            for i in 0..n {
                let g = if i + 1 == n {
                    plus(l1(x))
                } else if i % 4 == 3 {
                    G::Or(vec![G::And(vec![G::Ref(NAMES[i + 1]), lit("!")]), G::Ref(NAMES[i + 1])])
                } else {
                    G::Ref(NAMES[i + 1])
                };
                v.push((NAMES[i], g));
                if i > 15 {
                    // the doubling above is exponential in the depth
                    v.last_mut().unwrap().1 = if i + 1 == n { plus(l1(x)) } else { G::Ref(NAMES[i + 1]) };
                }
            }
            (v, text(2, lo, hi))
        }
        // nested groups
        5 => {
            let n = size_of(choice(13));
            let x = ch(lo, hi);
            let mut g = l1(x);
            for i in 0..n {
                g = match i % 4 {
                    0 => G::And(vec![g]),
                    1 => G::Or(vec![g, lit("zz")]),
                    2 => opt(g),
                    _ => not(not(g)),
                };
                if i % 4 == 3 {
                    g = G::And(vec![g, G::Dot]);
                }
            }
            (vec![("main", g)], text(1 + choice(2), lo, hi))
        }
        // a long run, with something else at the end
        6 => {
            let n = [0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300][choice(20)];
            let x = ch(lo, hi);
            let y = ch(lo, hi);
            let mut inp = vec![x; n];
            inp.push(ch(lo, hi));
            (vec![("main", G::And(vec![star(l1(x)), l1(y)]))], inp)
        }
        // balanced parentheses, recursion
        7 => {
            let g = G::Or(vec![G::And(vec![lit("("), G::Ref("main"), lit(")")]), lit("x")]);
            (vec![("main", g)], text(choice(8), '(', 'x'))
        }
        // deep recursion on concrete text, one symbolic character
        8 => {
            let g = G::Or(vec![G::And(vec![lit("("), G::Ref("main"), lit(")")]), l1(ch(lo, hi))]);
            let n = [1, 5, 10, 20, 40, 70][choice(6)];
            let mut inp = vec!['('; n];
            inp.push(ch(lo, hi));
            for _ in 0..n - choice(2) {
                inp.push(')');
            }
            (vec![("main", g)], inp)
        }
        // arithmetic-like grammar
        9 => {
            let v = vec![
                ("main", G::And(vec![G::Ref("term"), star(G::And(vec![G::Or(vec![lit("+"), lit("-")]), G::Ref("term")]))])),
                ("term", G::And(vec![G::Ref("fac"), star(G::And(vec![lit("*"), G::Ref("fac")]))])),
                ("fac", G::Or(vec![plus(class('0', '9')), G::And(vec![lit("("), G::Ref("main"), lit(")")])])),
            ];
            (v, text(choice(5), '(', '9'))
        }
        // predicates guarding a repetition: anything up to a terminator
        10 => {
            let a = ch(lo, hi);
            let b = ch(lo, hi);
            let end = G::Lit(vec![a, b]);
            let g = G::And(vec![star(G::And(vec![not(end.clone()), G::Dot])), end]);
            (vec![("main", g)], text(choice(5), lo, hi))
        }
        // alternatives that need backtracking over a long run
        11 => {
            let n = [1, 2, 5, 9, 17, 40][choice(6)];
            let x = ch(lo, hi);
            let (y, z) = (ch(lo, hi), ch(lo, hi));
            let g = G::Or(vec![
                G::And(vec![plus(l1(x)), l1(y)]),
                G::And(vec![plus(l1(x)), l1(z)]),
                G::And(vec![star(G::Dot), not(G::Dot)]),
            ]);
            let mut inp = vec![x; n];
            inp.push(ch(lo, hi));
            if choice(2) == 1 {
                inp.push(ch(lo, hi));
            }
            (vec![("main", g)], inp)
        }
        // nested repetitions
        12 => {
            let (x, y, z) = (ch(lo, hi), ch(lo, hi), ch(lo, hi));
            let g = star(G::And(vec![plus(l1(x)), opt(l1(y)), G::Rep(Box::new(l1(z)), 1, Some(2))]));
            (vec![("main", g)], text(choice(6), lo, hi))
        }
        // a long sequence with one member that gives no or several nodes
        13 => {
            let n = size_of(choice(12)).max(2);
            let at = [0, 1, n / 2, n - 1][choice(4)];
            let (x, y) = (ch(lo, hi), ch(lo, hi));
            let member = match choice(6) {
                0 => star(l1(x)),
                1 => G::Rep(Box::new(G::Or(vec![l1(x), l1(y)])), 0, Some(2)),
                2 => not(l1(x)),
                3 => G::And(vec![opt(l1(x)), opt(l1(y))]),
                4 => G::And(vec![]),
                _ => G::Ref("r"),
            };
            let mut inp = vec![];
            let v = (0..n)
                .map(|i| {
                    if i == at {
                        inp.extend(text(choice(3), lo, hi));
                        member.clone()
                    } else if i % 5 == 4 {
                        lit("")
                    } else {
                        inp.push('!');
                        lit("!")
                    }
                })
                .collect();
            (vec![("main", G::And(v)), ("r", plus(G::Or(vec![l1(x), l1(y)])))], inp)
        }
        // a choice of many, one of which is something else than a literal
        14 => {
            let n = size_of(choice(11)).max(2);
            let at = [0, 1, n / 2, n - 1][choice(4)];
            let (x, y, z) = (ch(lo, hi), ch(lo, hi), ch(lo, hi));
            let member = match choice(6) {
                0 => star(l1(x)),
                1 => plus(l1(x)),
                2 => not(l1(x)),
                3 => G::And(vec![l1(x), l1(y)]),
                4 => G::Or(vec![]),
                _ => G::Ref("r"),
            };
            let v = (0..n).map(|i| if i == at { member.clone() } else if i % 2 == 0 { G::Lit(vec!['!', z]) } else { l1(z) }).collect();
            (vec![("main", G::And(vec![G::Or(v), opt(l1(y))])), ("r", plus(G::Or(vec![l1(x), l1(y)])))], text(choice(4), lo, hi))
        }
        // mutually recursive rules
        _ => {
            let (x, y) = (ch(lo, hi), ch(lo, hi));
            let v = vec![
                ("main", G::Or(vec![G::And(vec![l1(x), G::Ref("b")]), G::Lit(vec![])])),
                ("b", G::Or(vec![G::And(vec![l1(y), G::Ref("main")]), G::And(vec![l1(x), l1(x)])])),
            ];
            (v, text(choice(6), lo, hi))
        }
    }
}

/// rep bodies whose tail can match nothing, empty groups...
pub fn odd(c: &Cfg) -> (Rules, Vec<char>) {
    let x = ch(c.lo, c.hi);
    let inp = input(3, c);
    let inner = match choice(8) {
        0 => G::And(vec![]),
        1 => G::Lit(vec![]),
        2 => opt(l1(x)),
        3 => star(l1(x)),
        4 => not(l1(x)),
        5 => G::Or(vec![l1(x), G::Lit(vec![])]),
        6 => G::Eof,
        _ => G::Ref("r"),
    };
    let g = match choice(7) {
        0 => star(inner),
        1 => plus(inner),
        2 => G::Rep(Box::new(inner), 3, None),
        3 => G::Rep(Box::new(inner), 0, Some(3)),
        4 => G::Rep(Box::new(inner), 0, Some(0)),
        5 => star(plus(inner)),
        _ => G::And(vec![inner]),
    };
    let g = match choice(3) {
        0 => g,
        1 => G::And(vec![g, G::Dot]),
        _ => G::Or(vec![G::And(vec![g, l1(ch(c.lo, c.hi))]), star(G::Dot)]),
    };
    (vec![("main", g), ("r", G::And(vec![opt(l1(x)), opt(l1(x))]))], inp)
}

/// empty groups and groups of one among the rest
pub fn groups(budget: usize, max: usize) -> (Rules, Vec<char>) {
    let c = Cfg {
        leaves: L_LIT1 | L_DOT | L_NOAND | L_NOOR,
        ops: O_AND | O_OR | O_NOT | O_STAR | O_OPT | O_OR1 | O_AND1,
        lo: 'a',
        hi: 'z',
    };
    (vec![("main", tree(budget, &c).0)], input(max, &c))
}

/// rule names that differ in one respect only, and unusual ones
pub const ODD_NAMES: [&str; 24] = [
    "a", "A", " a", "a ", ".a", "a.", "a.b", "a.b.c", "b", "", ".", "é", "e\u{301}", "main2", "Main", "main ", "ma", "r:a", "a\0", "0",
    "É", "ß", "ss", "\u{feff}a",
];
/// two rules with odd names next to main
pub fn odd_names() -> (Rules, Vec<char>) {
    let (i, j) = (choice(ODD_NAMES.len()), choice(ODD_NAMES.len()));
    assume(i != j);
    let (x, y, z) = (ch('a', 'z'), ch('a', 'z'), ch('a', 'z'));
    let (a, b) = (ODD_NAMES[i], ODD_NAMES[j]);
    let ra = G::And(vec![l1(x), G::Or(vec![G::Ref(b), l1(z)])]);
    let rb = l1(y);
    let main = G::And(vec![G::Ref(a), opt(G::Ref(b))]);
    let rules = match choice(3) {
        // one of them missing
        0 => vec![("main", main), (a, ra)],
        1 => vec![(a, ra), ("main", main), (b, rb)],
        _ => vec![(b, rb), ("main", G::Or(vec![G::And(vec![G::Ref(b), G::Ref(b)]), G::Ref(b)]))],
    };
    (rules, text(choice(4), 'a', 'z'))
}

/// p5 = 1: fewer sizes
fn run_sizes() -> usize {
    if param(5) == 1 {
        return [129, 257, 1025, 65537][choice(4)];
    }
    [129, 256, 257, 512, 1000, 1025, 4096, 4097, 10000, 65535, 65536, 65537][choice(12)]
}
fn mid_sizes() -> usize {
    if param(5) == 1 {
        return [129, 257, 1025][choice(3)];
    }
    [129, 200, 255, 256, 257, 512, 1000, 1025][choice(8)]
}
fn deep_sizes() -> usize {
    if param(5) == 1 {
        return [129, 257][choice(2)];
    }
    [100, 128, 129, 200, 256, 257][choice(6)]
}
pub fn leak(v: Vec<char>) -> &'static str {
    Box::leak(string(&v).into_boxed_str())
}
/// n characters, all symbolic if there are few, else those at the ends and in the middle
pub fn sparse(n: usize, lo: char, hi: char) -> Vec<char> {
    if n <= 5 {
        return text(n, lo, hi);
    }
    let mut v: Vec<char> = (0..n).map(|i| (b'k' + (i % 3) as u8) as char).collect();
    for i in [0, 1, n / 2, n - 2, n - 1] {
        v[i] = ch(lo, hi);
    }
    v
}
/// the i-th of any number of names
pub fn name_of(i: usize) -> &'static str {
    if i < NAMES.len() {
        return NAMES[i];
    }
    leak(format!("n{}", i).chars().collect())
}
pub const BIG: usize = 12;
/// much larger in one direction than `wide`: concrete but for a few characters that decide
pub fn big(c: &Cfg) -> (Rules, Vec<char>) {
    big_k(choice(BIG), c)
}
pub fn big_k(k: usize, c: &Cfg) -> (Rules, Vec<char>) {
    let sym = || ch(c.lo, c.hi);
    match k {
        // a run with something else in the middle and at the end
        0 => {
            let n = run_sizes();
            let mut inp = vec!['k'; n];
            inp[n / 2] = sym();
            inp.push(sym());
            let g = G::And(vec![star(G::Or(vec![l1('k'), l1(sym())])), l1(sym())]);
            (vec![("main", g)], inp)
        }
        // a literal
        1 => {
            let n = run_sizes();
            let mut l = vec!['k'; n];
            l[n - 1] = sym();
            let mut inp = vec!['k'; n];
            inp[n / 2] = sym();
            inp[n - 1] = sym();
            (vec![("main", G::Lit(l))], inp)
        }
        // a sequence
        2 => {
            let n = mid_sizes();
            let mut v = vec![l1('k'); n];
            v[n - 2] = opt(l1(sym()));
            v[n - 1] = l1(sym());
            let mut inp = vec!['k'; n - choice(2)];
            *inp.last_mut().unwrap() = sym();
            (vec![("main", G::And(v))], inp)
        }
        // a choice; the text is any one of four alternatives, or none, and one more character
        3 => {
            let n = mid_sizes();
            let nth = |i: usize| vec!['k', (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26 % 26) as u8) as char, (b'a' + (i / 676) as u8) as char];
            let v: Vec<G> = (0..n).map(|i| G::Lit(nth(i))).collect();
            let mut inp = nth([0, n / 2, n - 2, n - 1, n][choice(5)]);
            inp[3] = sym();
            inp.push(sym());
            (vec![("main", G::And(vec![G::Or(v), l1(sym())]))], inp)
        }
        // a chain of rules
        4 => {
            let n = deep_sizes();
            let names: Vec<&'static str> = (0..n).map(|i| leak(vec!['n', (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char])).collect();
            let mut v: Rules = vec![("main", G::Ref(names[0]))];
            for i in 0..n {
                v.push((names[i], if i + 1 < n { G::Ref(names[i + 1]) } else { G::Or(vec![l1(sym()), G::And(vec![l1('k'), l1(sym())])]) }));
            }
            (v, vec![sym(), sym()])
        }
        // nested groups
        5 => {
            let n = deep_sizes();
            let mut g = l1(sym());
            for i in 0..n {
                g = match i % 4 {
                    0 => G::And(vec![g]),
                    1 => G::Or(vec![lit("zz"), g]),
                    2 => G::Rep(Box::new(g), 1, Some(1)),
                    _ => G::Or(vec![g]),
                };
            }
            (vec![("main", g)], text(choice(3), c.lo, c.hi))
        }
        // recursion
        6 => {
            let n = deep_sizes();
            let g = G::Or(vec![G::And(vec![lit("("), G::Ref("main"), lit(")")]), l1(sym())]);
            let mut inp = vec!['('; n];
            inp.push(sym());
            inp.extend(vec![')'; n]);
            inp[n + n / 2] = ch(')', c.hi);
            (vec![("main", g)], inp)
        }
        // lines
        7 => {
            let n = run_sizes();
            let mut inp = vec!['\n'; n];
            inp.insert(n / 2, sym());
            inp.push(sym());
            inp.push(sym());
            (vec![("main", G::And(vec![star(G::Or(vec![l1('\n'), l1('k')])), l1(sym()), G::Dot]))], inp)
        }
        // an exact number of times
        8 => {
            let n = run_sizes();
            let mut inp = vec!['k'; n + choice(3) - 1];
            inp.push(sym());
            (vec![("main", G::And(vec![G::Rep(Box::new(l1('k')), n, Some(n)), opt(l1(sym()))]))], inp)
        }
        // a run taken back
        9 => {
            let n = mid_sizes();
            let g = G::Or(vec![
                G::And(vec![plus(l1('k')), l1(sym())]),
                G::And(vec![G::Rep(Box::new(l1('k')), 0, Some(n - 1)), not(l1(sym())), star(G::Dot)]),
            ]);
            let mut inp = vec!['k'; n];
            inp.push(sym());
            (vec![("main", g)], inp)
        }
        // many rules
        10 => {
            let n = mid_sizes().min(600);
            let names: Vec<&'static str> = (0..n).map(|i| leak(vec!['n', (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char])).collect();
            let mut v: Rules = vec![("main", G::And(vec![G::Ref(names[0]), G::Ref(names[n / 2]), opt(G::Ref(names[n - 1])), G::Ref(names[n - 1])]))];
            for i in 0..n {
                v.push((names[i], if [0, n / 2, n - 1].contains(&i) { l1(sym()) } else { lit("k") }));
            }
            (v, text(3 + choice(2), c.lo, c.hi))
        }
        // many nodes
        _ => {
            let n = mid_sizes();
            let mut inp = vec![];
            for _ in 0..n {
                inp.extend(['k', 'k', ' ']);
            }
            let m = inp.len();
            inp[m - 2] = sym();
            inp[m - 1] = ch(' ', c.hi);
            if flag() {
                inp.push(sym());
            }
            let v = vec![("main", G::And(vec![star(G::Ref("w")), opt(l1('!'))])), ("w", G::And(vec![plus(G::Or(vec![l1('k'), l1(sym())])), lit(" ")]))];
            (v, inp)
        }
    }
}

/// a choice of p sequences of q of the first k kinds of atom (or the other way round), texts of 0..=2 characters
pub fn table(p: usize, q: usize, k: usize) -> (Rules, Vec<char>) {
    let sym = || ch('a', 'z');
    let atom = || match choice(k) {
        0 => G::Lit(vec![]),
        1 => l1(sym()),
        2 => not(G::Dot),
        3 => G::Dot,
        4 => not(l1(sym())),
        5 => G::Ref("r"),
        6 => opt(l1(sym())),
        _ => star(l1(sym())),
    };
    let or = flag();
    let rows: Vec<G> = (0..p)
        .map(|_| {
            let v: Vec<G> = (0..q).map(|_| atom()).collect();
            if or { G::And(v) } else { G::Or(v) }
        })
        .collect();
    let g = if or { G::Or(rows) } else { G::And(rows) };
    let mut rules = vec![("main", g)];
    if k > 5 {
        rules.push(("r", l1(sym())));
    }
    let n = choice(3);
    (rules, text(n, 'a', 'z'))
}

/// long literals, classes, messages, names and texts of characters of one to four bytes, so that any
/// byte offset is inside a character in one of the cases
pub fn multibyte(sizes: usize) -> (Rules, Vec<char>) {
    let n = [9, 40, 65, 130, 257, 1025, 4100][choice(sizes)];
    let fill = ['b', '\u{e9}', '\u{20ac}', '\u{1f600}'][choice(4)];
    let mut t: Vec<char> = (0..choice(4)).map(|_| 'a').collect();
    t.extend((0..n).map(|_| fill));
    t.push(any_char());
    let x = ch('a', 'z');
    let k = choice(8);
    let main = match k {
        // the literal fails at its first or last character
        0 | 1 => G::Lit(t.clone()),
        2 => G::Class(t.clone(), vec![]),
        3 => G::And(vec![l1(x), G::Error(t.clone())]),
        4 => G::And(vec![l1(x), G::Ref(leak(t.clone()))]),
        // a long line before the place, or after it
        5 => G::And(vec![star(G::Or(vec![G::Class(vec!['a', fill], vec![]), l1('\n')])), l1(x)]),
        6 => l1(x),
        _ => G::And(vec![G::Lit(t.clone()), l1(x)]),
    };
    let y = ch('a', 'z');
    let inp: Vec<char> = match k {
        0 | 5 => t,
        1 => {
            let mut v = t[..t.len() - 1].to_vec();
            v.push(y);
            v
        }
        2 | 3 | 4 => vec![y],
        6 => {
            let mut v = vec![y];
            v.extend(t);
            v
        }
        _ => {
            let mut v = t;
            v.push(y);
            v
        }
    };
    (vec![("main", main)], inp)
}
