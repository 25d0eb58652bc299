//! Independent reference model of what a grammar means (the oracle).
//! Works on `Vec<char>`; shares no code with the crate under test.
use crate::sym::*;
use dynparser::ast::Node;
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};
use std::collections::HashMap;

#[derive(Clone, PartialEq)]
pub enum G {
    Lit(Vec<char>),
    Class(Vec<char>, Vec<(char, char)>),
    Dot,
    Eof,
    Error(Vec<char>),
    And(Vec<G>),
    Or(Vec<G>),
    Not(Box<G>),
    Rep(Box<G>, usize, Option<usize>),
    Ref(&'static str),
}

pub type Rules = Vec<(&'static str, G)>;

pub fn string(v: &[char]) -> String {
    let mut s = String::new();
    for c in v {
        s.push(*c);
    }
    s
}

pub fn expr(g: &G) -> Expression {
    match g {
        G::Lit(s) => Expression::Simple(Atom::Literal(string(s))),
        G::Class(cs, rs) => Expression::Simple(Atom::Match(MatchRules::init(&string(cs), rs.clone()))),
        G::Dot => Expression::Simple(Atom::Dot),
        G::Eof => Expression::Simple(Atom::EOF),
        G::Error(s) => Expression::Simple(Atom::Error(string(s))),
        G::And(v) => Expression::And(MultiExpr::new(v.iter().map(expr).collect())),
        G::Or(v) => Expression::Or(MultiExpr::new(v.iter().map(expr).collect())),
        G::Not(g) => Expression::Not(Box::new(expr(g))),
        G::Rep(g, a, b) => Expression::Repeat(RepInfo::new(Box::new(expr(g)), *a, *b)),
        G::Ref(n) => Expression::RuleName(n.to_string()),
    }
}

pub fn set(rules: &Rules) -> SetOfRules {
    let mut m = HashMap::new();
    for (n, g) in rules {
        m.insert(n.to_string(), expr(g));
    }
    SetOfRules::new(m)
}

// ------------------------------------------------------------- matching

#[derive(Clone, PartialEq)]
pub enum T {
    Val(Vec<char>),
    Rule(&'static str, Vec<T>),
    Eof,
}

/// what was looked for in vain
#[derive(Clone, PartialEq)]
pub enum Want {
    Lit(Vec<char>),
    Chars(Vec<char>),
    Other,
}

/// why and where the match failed
#[derive(Clone)]
pub struct Fail {
    /// what would have been accepted there, one for each alternative that got as far
    pub wants: Vec<Want>,
    pub n: usize,
    pub critical: bool,
    /// text of a critical error
    pub text: Option<Vec<char>>,
    pub missing: Option<&'static str>,
    pub walk: Vec<&'static str>,
}

#[derive(Clone)]
pub struct Pos {
    pub n: usize,
    /// what stopped the last repetition
    pub pot: Option<Fail>,
    pub walk: Vec<&'static str>,
}

pub struct Oracle<'a> {
    pub rules: &'a Rules,
    pub inp: &'a [char],
    /// keep the rules entered
    pub walks: bool,
}

impl<'a> Oracle<'a> {
    fn fail(&self, p: &Pos, n: usize, want: Want) -> Fail {
        Fail { wants: vec![want], n, critical: false, text: None, missing: None, walk: p.walk.clone() }
    }
    /// one character accepted by `f`
    fn one<F: Fn(char) -> bool, W: Fn() -> Want>(&self, p: &Pos, f: F, want: W) -> Result<char, Fail> {
        if p.n >= self.inp.len() {
            return Err(self.fail(p, p.n, want()));
        }
        let c = self.inp[p.n];
        if f(c) {
            Ok(c)
        } else {
            Err(self.fail(p, p.n + 1, want()))
        }
    }
    pub fn rule(&self, name: &'static str, p: &Pos) -> Result<(Pos, Vec<T>), Fail> {
        let mut p = p.clone();
        if self.walks {
            p.walk.push(name);
        }
        for (n, g) in self.rules {
            if *n == name {
                let (q, t) = self.m(g, &p)?;
                return Ok((q, vec![T::Rule(name, t)]));
            }
        }
        Err(Fail { wants: vec![], n: p.n, critical: true, text: None, missing: Some(name), walk: p.walk.clone() })
    }
    pub fn m(&self, g: &G, p: &Pos) -> Result<(Pos, Vec<T>), Fail> {
        match g {
            G::Lit(l) => {
                let mut q = p.clone();
                for c in l {
                    self.one(&q, |x| x == *c, || Want::Lit(l.clone()))?;
                    q.n += 1;
                }
                Ok((q, vec![T::Val(l.clone())]))
            }
            G::Class(cs, rs) => {
                let c = self.one(p, |x| cs.iter().any(|c| *c == x) || rs.iter().any(|r| r.0 <= x && x <= r.1), || Want::Chars(cs.clone()))?;
                let mut q = p.clone();
                q.n += 1;
                Ok((q, vec![T::Val(vec![c])]))
            }
            G::Dot => {
                let c = self.one(p, |_| true, || Want::Other)?;
                let mut q = p.clone();
                q.n += 1;
                Ok((q, vec![T::Val(vec![c])]))
            }
            G::Eof => {
                if p.n == self.inp.len() {
                    Ok((p.clone(), vec![T::Eof]))
                } else {
                    Err(self.fail(p, p.n + 1, Want::Other))
                }
            }
            G::Error(t) => Err(Fail { wants: vec![], n: p.n, critical: true, text: Some(t.clone()), missing: None, walk: p.walk.clone() }),
            G::And(v) => {
                let mut q = p.clone();
                let mut out = vec![];
                for g in v {
                    let (r, t) = self.m(g, &q)?;
                    q = r;
                    out.extend(t);
                }
                Ok((q, out))
            }
            G::Or(v) => {
                let mut best: Option<Fail> = None;
                for g in v {
                    match self.m(g, p) {
                        Ok(x) => return Ok(x),
                        Err(e) => {
                            if e.critical {
                                return Err(e);
                            }
                            // the furthest failure
                            best = match best {
                                Some(b) if b.n > e.n => Some(b),
                                Some(b) if b.n == e.n => {
                                    let mut e = e;
                                    e.wants.extend(b.wants);
                                    Some(e)
                                }
                                _ => Some(e),
                            };
                        }
                    }
                }
                Err(match best {
                    Some(b) => b,
                    None => self.fail(p, p.n, Want::Other),
                })
            }
            G::Not(g) => match self.m(g, p) {
                Ok(_) => Err(self.fail(p, p.n, Want::Other)),
                Err(_) => Ok((p.clone(), vec![])),
            },
            G::Rep(g, min, max) => {
                let mut q = p.clone();
                let mut out = vec![];
                let mut count = 0usize;
                loop {
                    if let Some(m) = max {
                        if count >= *m {
                            return Ok((q, out));
                        }
                    }
                    match self.m(g, &q) {
                        Ok((r, t)) => {
                            out.extend(t);
                            count += 1;
                            let stuck = r.n == q.n && max.is_none();
                            q = r;
                            if stuck && count >= *min {
                                return Ok((q, out));
                            }
                        }
                        Err(e) => {
                            if e.critical || count < *min {
                                return Err(e);
                            }
                            q.pot = Some(e);
                            return Ok((q, out));
                        }
                    }
                }
            }
            G::Ref(n) => self.rule(n, p),
        }
    }
}

pub enum Verdict {
    Accept(T),
    /// main failed
    Fail(Fail),
    /// main matched a prefix only
    Left(Pos),
}

pub fn oracle(rules: &Rules, inp: &[char]) -> Verdict {
    judge(rules, inp, false)
}
pub fn oracle_walk(rules: &Rules, inp: &[char]) -> Verdict {
    judge(rules, inp, true)
}
fn judge(rules: &Rules, inp: &[char], walks: bool) -> Verdict {
    let o = Oracle { rules, inp, walks };
    match o.rule("main", &Pos { n: 0, pot: None, walk: vec![] }) {
        Ok((p, mut t)) => {
            if p.n == inp.len() {
                Verdict::Accept(t.pop().unwrap())
            } else {
                Verdict::Left(p)
            }
        }
        Err(f) => Verdict::Fail(f),
    }
}

pub fn same_tree(t: &T, n: &Node) -> bool {
    match (t, n) {
        (T::Eof, Node::EOF) => true,
        (T::Val(v), Node::Val(s)) => s.as_str() == string(v).as_str(),
        (T::Rule(name, ts), Node::Rule((nn, ns))) => {
            if nn.as_str() != *name || ts.len() != ns.len() {
                return false;
            }
            let mut ok = true;
            for i in 0..ts.len() {
                ok &= same_tree(&ts[i], &ns[i]);
            }
            ok
        }
        _ => false,
    }
}

/// fold a tree into the digest
pub fn digest_node(n: &Node) {
    match n {
        Node::EOF => digest(3),
        Node::Val(s) => {
            digest(5);
            digest_str(s);
        }
        Node::Rule((n, v)) => {
            digest(7);
            digest_str(n);
            digest(v.len() as u64);
            for x in v {
                digest_node(x);
            }
        }
    }
}

pub fn digest_expr(e: &Expression) {
    match e {
        Expression::Simple(a) => match a {
            Atom::Literal(s) => {
                digest(11);
                digest_str(s);
            }
            Atom::Match(m) => {
                digest(12);
                digest_str(m.chars());
                for (a, b) in m.ranges() {
                    digest(*a as u64);
                    digest(*b as u64);
                }
            }
            Atom::Error(s) => {
                digest(13);
                digest_str(s);
            }
            Atom::Dot => digest(14),
            Atom::EOF => digest(15),
        },
        Expression::And(m) => {
            digest(16);
            for x in &m.0 {
                digest_expr(x);
            }
        }
        Expression::Or(m) => {
            digest(17);
            for x in &m.0 {
                digest_expr(x);
            }
        }
        Expression::Not(x) => {
            digest(18);
            digest_expr(x);
        }
        Expression::Repeat(r) => {
            digest(19);
            digest_expr(&r.expression);
        }
        Expression::RuleName(n) => {
            digest(20);
            digest_str(n);
        }
    }
}

pub fn digest_result(r: &Result<Node, dynparser::parser::Error>) {
    match r {
        Ok(n) => {
            digest(1);
            digest_node(n);
        }
        Err(e) => {
            digest(2);
            digest(e.pos.n as u64);
            digest(e.pos.row as u64);
            digest(e.pos.col as u64);
            digest(e.pos.start_line as u64);
            digest_str(&e.line_before);
            digest_str(&e.line_after);
        }
    }
}

// ------------------------------------------------------------- description (native replay only)

pub fn show(g: &G) -> String {
    match g {
        G::Lit(s) => format!("lit({:?})", string(s)),
        G::Class(c, r) => format!("class({:?},{:?})", string(c), r),
        G::Dot => "dot".into(),
        G::Eof => "eof".into(),
        G::Error(s) => format!("error({:?})", string(s)),
        G::And(v) => format!("and({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        G::Or(v) => format!("or({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        G::Not(g) => format!("not({})", show(g)),
        G::Rep(g, a, b) => format!("rep({}, {}, {:?})", show(g), a, b),
        G::Ref(n) => format!("ref({})", n),
    }
}

pub fn note_case(rules: &Rules, inp: &[char]) {
    if noting() {
        for (n, g) in rules {
            note(&format!("rule {} = {}", n, show(g)));
        }
        let s = string(inp);
        note(&format!("input {} chars {:?}", inp.len(), s.chars().take(80).collect::<String>()));
    }
}
