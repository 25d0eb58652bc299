//! From rules to Rust source: the text read as the macros would read it gives the rules back.
use crate::gen::*;
use crate::model::*;
use crate::norm::*;
use crate::sym::*;
use dynparser::parser::expression::SetOfRules;
use dynparser::peg::gcode::rust_from_rules;
use dynparser::rules_from_peg;

/// reads the arguments of `rules!`; None where rustc would refuse the text
struct Reader {
    t: Vec<char>,
    i: usize,
}
impl Reader {
    fn peek(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.t.get(self.i + k).copied()
    }
    fn blank(&mut self) {
        loop {
            match (self.peek(), self.at(1)) {
                (Some(' '), _) | (Some('\n'), _) | (Some('\t'), _) | (Some('\r'), _) => self.i += 1,
                (Some('/'), Some('/')) => {
                    while self.peek().map_or(false, |c| c != '\n') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// the token, if it is next
    fn is(&mut self, s: &str) -> bool {
        self.blank();
        let mut k = 0;
        for c in s.chars() {
            if self.at(k) != Some(c) {
                return false;
            }
            k += 1;
        }
        self.i += k;
        true
    }
    fn want(&mut self, s: &str) -> Option<()> {
        if self.is(s) {
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self) -> Option<Vec<char>> {
        self.blank();
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if !((c >= 'a') & (c <= 'z') | (c >= '0') & (c <= '9') | (c == '_')) {
                break;
            }
            v.push(c);
            self.i += 1;
        }
        if v.is_empty() {
            None
        } else {
            Some(v)
        }
    }
    fn number(&mut self) -> Option<usize> {
        let mut n = 0usize;
        for c in self.word()? {
            if c == '_' {
                continue;
            }
            if c < '0' || c > '9' {
                return None;
            }
            n = n.checked_mul(10)?.checked_add((c as u32 - '0' as u32) as usize)?;
        }
        Some(n)
    }
    fn hex(&mut self) -> Option<u32> {
        let c = self.peek()?;
        self.i += 1;
        let (dec, low, up) = ((c >= '0') & (c <= '9'), (c >= 'a') & (c <= 'f'), (c >= 'A') & (c <= 'F'));
        if !(dec | low | up) {
            return None;
        }
        let c = c as u32;
        Some(if dec { c - '0' as u32 } else { (c & 0x1f) + 9 })
    }
    /// what follows a backslash
    fn escape(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            '\\' => '\\',
            '\'' => '\'',
            '"' => '"',
            'x' => {
                let v = self.hex()? * 16 + self.hex()?;
                if v > 0x7f {
                    return None;
                }
                char::from_u32(v)?
            }
            'u' => {
                if self.peek()? != '{' {
                    return None;
                }
                self.i += 1;
                let mut v = 0u32;
                let mut n = 0;
                while self.peek()? != '}' {
                    v = v << 4 | self.hex()?;
                    n += 1;
                    if n > 6 {
                        return None;
                    }
                }
                self.i += 1;
                if n == 0 {
                    return None;
                }
                char::from_u32(v)?
            }
            _ => return None,
        })
    }
    fn string(&mut self) -> Option<Vec<char>> {
        self.blank();
        let mut v = vec![];
        if self.peek()? == 'r' {
            self.i += 1;
            let mut h = 0;
            while self.peek()? == '#' {
                h += 1;
                self.i += 1;
            }
            if self.peek()? != '"' {
                return None;
            }
            self.i += 1;
            loop {
                let c = self.peek()?;
                self.i += 1;
                if c == '"' && (0..h).all(|k| self.at(k) == Some('#')) {
                    self.i += h;
                    break;
                }
                if c == '\r' {
                    if self.peek()? != '\n' {
                        return None;
                    }
                    continue;
                }
                v.push(c);
            }
        } else {
            if self.peek()? != '"' {
                return None;
            }
            self.i += 1;
            loop {
                let c = self.peek()?;
                self.i += 1;
                match c {
                    '"' => break,
                    '\\' => {
                        if self.peek()? == '\n' {
                            self.blank();
                        } else {
                            v.push(self.escape()?);
                        }
                    }
                    '\r' => {
                        if self.peek()? != '\n' {
                            return None;
                        }
                    }
                    c => v.push(c),
                }
            }
        }
        self.suffix()?;
        Some(v)
    }
    /// a name glued to a literal would be its suffix
    fn suffix(&mut self) -> Option<()> {
        match self.peek() {
            Some(c) if (c >= 'a') & (c <= 'z') | (c >= '0') & (c <= '9') | (c == '_') | (c == '"') | (c == '\'') => None,
            _ => Some(()),
        }
    }
    fn character(&mut self) -> Option<char> {
        self.blank();
        if self.peek()? != '\'' {
            return None;
        }
        self.i += 1;
        let c = self.peek()?;
        self.i += 1;
        let c = match c {
            '\\' => self.escape()?,
            '\'' | '\n' | '\r' | '\t' => return None,
            c => c,
        };
        if self.peek()? != '\'' {
            return None;
        }
        self.i += 1;
        self.suffix()?;
        Some(c)
    }
    fn members(&mut self, close: &str) -> Option<Vec<N>> {
        let mut v = vec![];
        if self.is(close) {
            return Some(v);
        }
        loop {
            v.push(self.expr()?);
            if self.is(close) {
                return Some(v);
            }
            self.want(",")?;
        }
    }
    fn class(&mut self, close: &str) -> Option<N> {
        self.want("chlist")?;
        let cs = self.string()?;
        let mut rs = vec![];
        self.want(",")?;
        if self.is("from2") {
            self.want("vec!")?;
            self.want("[")?;
            while !self.is("]") {
                self.want("(")?;
                let a = self.character()?;
                self.want(",")?;
                rs.push((a, self.character()?));
                self.want(")")?;
                if !self.is(",") {
                    self.want("]")?;
                    break;
                }
            }
        } else {
            loop {
                self.want("from")?;
                let a = self.character()?;
                self.want(",")?;
                self.want("to")?;
                rs.push((a, self.character()?));
                if !self.is(",") {
                    break;
                }
            }
        }
        self.want(close)?;
        Some(N::Class(cs, rs))
    }
    fn expr(&mut self) -> Option<N> {
        let w = string(&self.word()?);
        self.want("!")?;
        let close = if self.is("(") {
            ")"
        } else if self.is("{") {
            "}"
        } else {
            self.want("[")?;
            "]"
        };
        let e = match w.as_str() {
            "lit" => N::Lit(self.string()?),
            "error" => N::Error(self.string()?),
            "ref_rule" => N::Ref(self.string()?),
            "dot" => N::Dot,
            "eof" => N::Eof,
            "and" => return Some(N::And(self.members(close)?)),
            "or" => return Some(N::Or(self.members(close)?)),
            "not" => N::Not(Box::new(self.expr()?)),
            "rep" => {
                let e = self.expr()?;
                self.want(",")?;
                let a = self.number()?;
                let b = if self.is(",") { Some(self.number()?) } else { None };
                N::Rep(Box::new(e), a, b)
            }
            "ematch" => return self.class(close),
            _ => return None,
        };
        self.want(close)?;
        Some(e)
    }
    fn rules(&mut self) -> Option<Vec<(Vec<char>, N)>> {
        let mut v = vec![];
        self.blank();
        if self.peek().is_none() {
            return Some(v);
        }
        loop {
            let n = self.string()?;
            self.want("=>")?;
            v.push((n, self.expr()?));
            self.blank();
            if self.peek().is_none() {
                return Some(v);
            }
            self.want(",")?;
        }
    }
}
fn again(n: N) -> N {
    // the same grouping as the original
    match n {
        N::And(v) => join(v.into_iter().map(again).collect(), true),
        N::Or(v) => join(v.into_iter().map(again).collect(), false),
        N::Not(x) => N::Not(Box::new(again(*x))),
        N::Rep(x, a, b) => N::Rep(Box::new(again(*x)), a, b),
        x => x,
    }
}
fn back(s: &SetOfRules, want: &[(&str, N)]) {
    let t = rust_from_rules(s);
    if noting() {
        note(&format!("code {:?}", t.chars().take(400).collect::<String>()));
    }
    let mut r = Reader { t: chars(&t), i: 0 };
    match r.rules() {
        None => {
            if noting() {
                note(&format!("no Rust from {:?}", r.t[r.i.min(r.t.len())..].iter().take(60).collect::<String>()));
            }
            check(false, 1);
        }
        Some(got) => {
            reach(1);
            check(got.len() == want.len(), 2);
            for (name, e) in got {
                let mut found = false;
                for (n, w) in want {
                    if chars(n) == name {
                        found = true;
                        let e = again(e.clone());
                        if noting() && e != *w {
                            note(&format!("{} is {} and not {}", n, show_n(&e), show_n(w)));
                        }
                        check(e == *w, 3);
                    }
                }
                check(found, 4);
            }
            digest(t.len() as u64);
        }
    }
}
fn c18(rules: &Rules) {
    let v: Vec<(&str, N)> = rules.iter().map(|(n, g)| (*n, norm(g))).collect();
    back(&set(rules), &v);
}

const ALL_OPS: u32 = O_AND | O_OR | O_NOT | O_STAR | O_PLUS | O_OPT | O_BOUND | O_ZERO;

/// every shape, few kinds of leaves
pub fn c18_trees() {
    let c = Cfg { leaves: L_LIT1 | L_REF, ops: ALL_OPS, lo: 'a', hi: 'z' };
    c18(&vec![("main", tree(param(0), &c).0)]);
}
/// small shapes, all leaves
pub fn c18_leaves() {
    let c = Cfg {
        leaves: L_LIT1 | L_LIT2 | L_EMPTY | L_CLASS | L_CHLIST | L_DOT | L_REF | L_ERR | L_EOF,
        ops: ALL_OPS | O_AND3 | O_OR3,
        lo: ' ',
        hi: '/',
    };
    c18(&vec![("main", tree(param(0), &c).0), ("r", G::Dot)]);
}
fn any_text(n: usize) -> Vec<char> {
    (0..choice(n + 1)).map(|_| any_char()).collect()
}
/// every character anywhere
pub fn c18_chars() {
    let n = param(0);
    let g = match choice(3) {
        0 => G::Lit(any_text(n)),
        1 => G::Error(any_text(n)),
        _ => match choice(n + 1) {
            0 => G::Class(any_text(1), vec![]),
            1 => G::Class(vec![], vec![(any_char(), any_char())]),
            _ => G::Class(vec![any_char()], vec![('a', any_char()), (any_char(), 'z')]),
        },
    };
    c18(&vec![("main", g)]);
}
/// names as PEG text allows them
pub fn c18_names() {
    let names = ["main", "_'", "_\"", "a.b", ".x", "_'\"'\"", "3", "\"", "\\", "a\\", "é", "a b", "", "\"#", "'"];
    let (i, j) = (choice(names.len()), choice(names.len()));
    assume(i != j);
    c18(&vec![(names[i], G::And(vec![G::Ref(names[j]), G::Dot])), (names[j], l1(ch(' ', '~')))]);
}
/// repetition bounds of any size
pub fn c18_bounds() {
    let bs = [0, 1, 2, 3, 7, 9, 10, 11, 15, 16, 19, 99, 100, 101, 255, 256, 1000, 65535, 65536, 4294967296, usize::MAX];
    let a = bs[choice(bs.len())];
    let b = match choice(bs.len() + 1) {
        0 => None,
        k => Some(bs[k - 1]),
    };
    c18(&vec![("main", G::Rep(Box::new(l1(ch('a', 'z'))), a, b))]);
}
/// large in one direction
/// texts that look like pieces of the generated code or other notations, in short and long rules
const PIECES: [&str; 48] = [
    "), ", "(", ")", ",", ", ", "\", \"", "\"", "\"\"", "'", "', to '", "\\", "\\\\", "\\\"", "\\n", "\n", "\n,", "\r\n", "\t", "  ", " ", "=>", " => ", "r#\"", "\"#", "r#", "#", "lit!(", "and!()", "or!(lit!(\"a\"))", "ref_rule!",
    "rep!(x, 0)", "vec![]", "from2 ", "chlist ", ", from 'a', to 'b'", "{", "}", "{}", "{{", "/*", "//", "*/", "\u{0}", "\u{7f}", "\u{feff}", "\u{202e}", "e\u{301}", "\\u{41}",
];
pub fn c18_looks() {
    let k = choice(PIECES.len());
    let x = ch('\u{0}', '\u{7f}');
    let t: Vec<char> = match choice(3) {
        0 => chars(PIECES[k]),
        1 => {
            let mut t = chars(PIECES[k]);
            t.push(x);
            t
        }
        _ => {
            let mut t = vec![x];
            t.extend(PIECES[k].chars());
            t
        }
    };
    // the code of a rule may be laid out differently when it is long
    let n = [0, 150, 60, 90, 1000][choice(param(0))];
    let more = G::Lit(vec!['y'; n]);
    let name = leak(if choice(2) == 0 { t.clone() } else { chars("r") });
    let g = match choice(5) {
        0 => G::Lit(t),
        1 => G::Error(t),
        2 => G::Class(t, vec![]),
        3 => G::Class(t, vec![('a', 'z'), (x, '\\')]),
        _ => G::Ref(leak(t)),
    };
    let g = match choice(3) {
        0 => G::And(vec![g, more]),
        1 => G::And(vec![more, g]),
        _ => G::Or(vec![l1('a'), G::Not(Box::new(g)), more]),
    };
    c18(&vec![(name, g)]);
}
pub fn c18_wide() {
    let n = [1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129, 257][choice(param(0))];
    let l = |i: usize| if i % 3 == 1 { G::Ref(name_of(i)) } else if i < 3 { l1(ch('(', '[')) } else { lit("x") };
    let at = choice(3).min(n - 1);
    let txt = |n: usize| {
        let mut t: Vec<char> = (0..n).map(|i| ['(', '"', '[', '\\', '\'', 'k'][i % 6]).collect();
        t[at] = ch(' ', '~');
        t[n - 1] = ch(' ', '~');
        t
    };
    let g = match choice(7) {
        0 => G::And((0..n).map(l).collect()),
        1 => G::Or((0..n).map(l).collect()),
        2 => G::Lit(txt(n)),
        3 => G::Class(txt(n), (0..n).map(|i| if i == 0 { (ch('(', '['), ch('(', '[')) } else { ('a', 'z') }).collect()),
        4 => G::Or((0..n).map(|i| G::And(vec![l(i), star(l(i + 1)), not(G::Dot), G::Class(vec!['x'], vec![])])).collect()),
        5 => {
            let mut g = l1(ch(' ', '~'));
            for i in 0..n {
                g = match i % 5 {
                    0 => G::And(vec![g, l1('y')]),
                    1 => G::Or(vec![l1('x'), g]),
                    2 => star(g),
                    3 => G::Rep(Box::new(g), 2, Some(13)),
                    _ => not(g),
                };
            }
            g
        }
        _ => {
            let v: Rules = (0..n).map(|i| (name_of(i), l(i))).collect();
            c18(&v);
            return;
        }
    };
    c18(&vec![("main", g)]);
}
/// rules read from PEG text
pub fn c18_peg() {
    let x = ch(' ', '~');
    assume(x != '\'' && x != '"' && x != ']' && x != '-');
    let texts = ["main = 'X' \"\\n\" / [Xa-z]+ _'? !.\n_' = error('X')\n", "main = (!'X' .)* \"\\\\\\\"\\0x7F\"\nm{\nq = [X]\n}\n", "a.b = 'X'* / [a-X] ''\nmain = a.b\n"];
    let mut t = vec![];
    for c in texts[choice(3)].chars() {
        t.push(if c == 'X' { x } else { c });
    }
    match rules_from_peg(&string(&t)) {
        Err(_) => check(false, 5),
        Ok(s) => {
            let mut v: Vec<(&str, N)> = vec![];
            for (n, e) in s.0.iter() {
                v.push((n, norm_e(e)));
            }
            back(&s, &v);
        }
    }
}
