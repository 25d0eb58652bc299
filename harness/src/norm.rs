//! Expressions up to grouping: And in And and Or in Or are one, a group of one is its member.
use crate::model::*;
use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, NRep};

#[derive(Clone, PartialEq)]
pub enum N {
    Lit(Vec<char>),
    Class(Vec<char>, Vec<(char, char)>),
    Dot,
    Eof,
    Error(Vec<char>),
    And(Vec<N>),
    Or(Vec<N>),
    Not(Box<N>),
    Rep(Box<N>, usize, Option<usize>),
    Ref(Vec<char>),
}

fn and(v: Vec<N>) -> N {
    let mut out = vec![];
    for x in v {
        match x {
            N::And(w) => out.extend(w),
            x => out.push(x),
        }
    }
    if out.len() == 1 {
        out.pop().unwrap()
    } else {
        N::And(out)
    }
}
fn or(v: Vec<N>) -> N {
    let mut out = vec![];
    for x in v {
        match x {
            N::Or(w) => out.extend(w),
            x => out.push(x),
        }
    }
    if out.len() == 1 {
        out.pop().unwrap()
    } else {
        N::Or(out)
    }
}
pub fn join(v: Vec<N>, seq: bool) -> N {
    if seq {
        and(v)
    } else {
        or(v)
    }
}
fn count(n: &NRep) -> usize {
    let mut v = 0usize;
    for b in n.to_string().bytes() {
        v = v * 10 + (b - b'0') as usize;
    }
    v
}
pub fn norm(g: &G) -> N {
    match g {
        G::Lit(s) => N::Lit(s.clone()),
        G::Class(c, r) => N::Class(c.clone(), r.clone()),
        G::Dot => N::Dot,
        G::Eof => N::Eof,
        G::Error(s) => N::Error(s.clone()),
        G::And(v) => and(v.iter().map(norm).collect()),
        G::Or(v) => or(v.iter().map(norm).collect()),
        G::Not(g) => N::Not(Box::new(norm(g))),
        G::Rep(g, a, b) => N::Rep(Box::new(norm(g)), *a, *b),
        G::Ref(n) => N::Ref(n.chars().collect()),
    }
}
pub fn norm_e(e: &Expression) -> N {
    let cs = |s: &str| s.chars().collect::<Vec<char>>();
    match e {
        Expression::Simple(Atom::Literal(s)) => N::Lit(cs(s)),
        Expression::Simple(Atom::Error(s)) => N::Error(cs(s)),
        Expression::Simple(Atom::Dot) => N::Dot,
        Expression::Simple(Atom::EOF) => N::Eof,
        Expression::Simple(Atom::Match(m)) => N::Class(cs(m.chars()), m.ranges().to_vec()),
        Expression::And(v) => and(v.0.iter().map(norm_e).collect()),
        Expression::Or(v) => or(v.0.iter().map(norm_e).collect()),
        Expression::Not(e) => N::Not(Box::new(norm_e(e))),
        Expression::Repeat(r) => N::Rep(Box::new(norm_e(&r.expression)), count(&r.min), r.max.as_ref().map(count)),
        Expression::RuleName(s) => N::Ref(cs(s)),
    }
}
pub fn show_n(g: &N) -> String {
    let st = |v: &Vec<char>| string(v);
    let l = |v: &Vec<N>| v.iter().map(show_n).collect::<Vec<_>>().join(", ");
    match g {
        N::Lit(s) => format!("lit({:?})", st(s)),
        N::Class(c, r) => format!("class({:?},{:?})", st(c), r),
        N::Dot => "dot".into(),
        N::Eof => "eof".into(),
        N::Error(s) => format!("error({:?})", st(s)),
        N::And(v) => format!("and({})", l(v)),
        N::Or(v) => format!("or({})", l(v)),
        N::Not(g) => format!("not({})", show_n(g)),
        N::Rep(g, a, b) => format!("rep({}, {}, {:?})", show_n(g), a, b),
        N::Ref(n) => format!("ref({})", st(n)),
    }
}
