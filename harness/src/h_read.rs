//! Any text as PEG, against an independent reader of the documented syntax.
use crate::gen::*;
use crate::h_peg::*;
use crate::model::*;
use crate::norm::*;
use crate::sym::*;
use dynparser::parser::ErrPriority;
use dynparser::{peg, rules_from_peg};

/// why a text is not PEG
enum No {
    /// no way to read on
    Back,
    /// an opened parenthesis is not closed at this place
    Open(usize),
}
type R<T> = Result<T, No>;

/// one definition: its name, what it means, whether it stands inside a module
struct Def {
    name: Vec<char>,
    means: N,
    depth: usize,
}

/// Reads what the syntax in the documentation describes.  Written as a recogniser on characters
/// (every function either advances or leaves the place alone), not from the crate's rules.
struct Reader<'a> {
    t: &'a [char],
    i: usize,
    depth: usize,
}

impl<'a> Reader<'a> {
    fn peek(&self, k: usize) -> Option<char> {
        self.t.get(self.i + k).copied()
    }
    fn eat(&mut self, s: &str) -> bool {
        let mut k = 0;
        for c in s.chars() {
            if self.peek(k) != Some(c) {
                return false;
            }
            k += 1;
        }
        self.i += k;
        true
    }
    fn must(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(No::Back)
        }
    }
    fn eol(&mut self) -> bool {
        self.eat("\r\n") || self.eat("\n") || self.eat("\r")
    }
    fn comment(&mut self) -> bool {
        let start = self.i;
        if self.eat("//") {
            // up to the end of the line
            while let Some(c) = self.peek(0) {
                if c == '\n' || c == '\r' {
                    break;
                }
                self.i += 1;
            }
            return true;
        }
        if self.eat("/*") {
            while self.i < self.t.len() {
                if self.eat("*/") {
                    return true;
                }
                self.i += 1;
            }
            self.i = start;
        }
        false
    }
    /// blanks, line ends, comments
    fn blank(&mut self) {
        while self.eat(" ") || self.eol() || self.comment() {}
    }
    /// what ends a definition
    fn end_of_def(&mut self) -> R<()> {
        while self.eat(" ") || self.comment() {}
        if self.eol() {
            self.blank();
            Ok(())
        } else {
            Err(No::Back)
        }
    }
    fn attempt<T, F: FnOnce(&mut Self) -> R<T>>(&mut self, f: F) -> R<T> {
        let start = self.i;
        let r = f(self);
        if r.is_err() {
            self.i = start;
        }
        r
    }
    fn symbol(&mut self) -> R<Vec<char>> {
        let word = |c: char| (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c >= '0') & (c <= '9') | (c == '_');
        let mut v = vec![];
        match self.peek(0) {
            Some(c) if word(c) => v.push(c),
            _ => return Err(No::Back),
        }
        self.i += 1;
        while let Some(c) = self.peek(0) {
            if !(word(c) | (c == '\'') | (c == '"')) {
                break;
            }
            v.push(c);
            self.i += 1;
        }
        Ok(v)
    }
    fn name(&mut self) -> R<Vec<char>> {
        self.attempt(|s| {
            let mut v = vec![];
            if s.eat(".") {
                v.push('.');
            }
            v.extend(s.symbol()?);
            loop {
                let more = s.attempt(|s| {
                    s.must(".")?;
                    s.symbol()
                });
                match more {
                    Ok(w) => {
                        v.push('.');
                        v.extend(w);
                    }
                    Err(_) => return Ok(v),
                }
            }
        })
    }
    fn text(&mut self) -> R<Vec<char>> {
        self.attempt(|s| {
            let mut v = vec![];
            if s.eat("'") {
                while let Some(c) = s.peek(0) {
                    s.i += 1;
                    if c == '\'' {
                        return Ok(v);
                    }
                    v.push(c);
                }
                return Err(No::Back);
            }
            s.must("\"")?;
            loop {
                let c = s.peek(0).ok_or(No::Back)?;
                if c == '"' {
                    s.i += 1;
                    return Ok(v);
                }
                if c == '\\' {
                    let known = match s.peek(1) {
                        Some('r') => Some('\r'),
                        Some('n') => Some('\n'),
                        Some('t') => Some('\t'),
                        Some('\\') => Some('\\'),
                        Some('"') => Some('"'),
                        _ => None,
                    };
                    if let Some(k) = known {
                        v.push(k);
                        s.i += 2;
                        continue;
                    }
                    if let (Some('0'), Some('x'), Some(a), Some(b)) = (s.peek(1), s.peek(2), s.peek(3), s.peek(4)) {
                        if let (Some(a), Some(b)) = (digit(a), digit(b)) {
                            v.push(unsafe { char::from_u32_unchecked(a * 16 + b) });
                            s.i += 5;
                            continue;
                        }
                    }
                }
                v.push(c);
                s.i += 1;
            }
        })
    }
    fn class(&mut self) -> R<N> {
        self.attempt(|s| {
            s.must("[")?;
            let (mut cs, mut rs) = (vec![], vec![]);
            while let Some(c) = s.peek(0) {
                if c == ']' || s.peek(1) == Some('-') {
                    break;
                }
                cs.push(c);
                s.i += 1;
            }
            while let (Some(a), Some('-'), Some(b)) = (s.peek(0), s.peek(1), s.peek(2)) {
                rs.push((a, b));
                s.i += 3;
            }
            if cs.is_empty() && rs.is_empty() {
                return Err(No::Back);
            }
            s.must("]")?;
            Ok(N::Class(cs, rs))
        })
    }
    fn atom(&mut self) -> R<N> {
        match self.peek(0) {
            Some('(') => self.attempt(|s| {
                s.i += 1;
                s.blank();
                let e = s.expr()?;
                s.blank();
                if s.eat(")") {
                    Ok(e)
                } else {
                    Err(No::Open(s.i))
                }
            }),
            Some('\'') | Some('"') => self.text().map(N::Lit),
            Some('[') => self.class(),
            _ => match self.name() {
                Ok(n) => Ok(N::Ref(n)),
                Err(No::Back) => self.must(".").map(|_| N::Dot),
                Err(e) => Err(e),
            },
        }
    }
    fn factor(&mut self) -> R<N> {
        if self.peek(0) == Some('!') {
            return self.attempt(|s| {
                s.i += 1;
                Ok(N::Not(Box::new(s.atom()?)))
            });
        }
        let a = self.atom()?;
        Ok(if self.eat("*") {
            N::Rep(Box::new(a), 0, None)
        } else if self.eat("+") {
            N::Rep(Box::new(a), 1, None)
        } else if self.eat("?") {
            N::Rep(Box::new(a), 0, Some(1))
        } else {
            a
        })
    }
    fn error(&mut self) -> R<N> {
        self.attempt(|s| {
            s.must("error")?;
            s.blank();
            s.must("(")?;
            s.blank();
            let t = s.text()?;
            s.blank();
            s.must(")")?;
            Ok(N::Error(t))
        })
    }
    /// members of a sequence
    fn seq(&mut self) -> R<Vec<N>> {
        match self.error() {
            Ok(e) => return Ok(vec![e]),
            Err(No::Back) => {}
            Err(e) => return Err(e),
        }
        let mut v = vec![self.factor()?];
        loop {
            let more = self.attempt(|s| {
                // at least one blank or line end
                if !(s.eat(" ") || s.eol()) {
                    return Err(No::Back);
                }
                s.blank();
                // the beginning of the next definition is not a member
                let here = s.i;
                if s.name().is_ok() {
                    s.blank();
                    if s.eat("=") || s.eat("{") {
                        return Err(No::Back);
                    }
                }
                s.i = here;
                s.seq()
            });
            match more {
                Ok(w) => v.extend(w),
                Err(No::Back) => return Ok(v),
                Err(e) => return Err(e),
            }
        }
    }
    fn expr(&mut self) -> R<N> {
        let mut alts = vec![join(self.seq()?, true)];
        loop {
            let more = self.attempt(|s| {
                s.blank();
                s.must("/")?;
                s.blank();
                s.seq()
            });
            match more {
                Ok(w) => alts.push(join(w, true)),
                Err(No::Back) => return Ok(join(alts, false)),
                Err(e) => return Err(e),
            }
        }
    }
    fn def(&mut self) -> R<Def> {
        self.attempt(|s| {
            s.blank();
            let name = s.name()?;
            s.blank();
            s.must("=")?;
            s.blank();
            let means = s.expr()?;
            s.end_of_def()?;
            Ok(Def { name, means, depth: s.depth })
        })
    }
    fn module(&mut self) -> R<Vec<Def>> {
        self.attempt(|s| {
            s.blank();
            s.symbol()?;
            s.blank();
            s.must("{")?;
            s.blank();
            s.depth += 1;
            let v = s.defs();
            s.depth -= 1;
            let v = v?;
            s.blank();
            s.must("}")?;
            s.end_of_def()?;
            Ok(v)
        })
    }
    fn defs(&mut self) -> R<Vec<Def>> {
        let mut v = vec![];
        loop {
            match self.def() {
                Ok(d) => {
                    v.push(d);
                    continue;
                }
                Err(No::Back) => {}
                Err(e) => return Err(e),
            }
            match self.module() {
                Ok(w) => v.extend(w),
                Err(No::Back) => return if v.is_empty() { Err(No::Back) } else { Ok(v) },
                Err(e) => return Err(e),
            }
        }
    }
    fn all(&mut self) -> R<Vec<Def>> {
        let v = self.defs()?;
        if self.i == self.t.len() {
            Ok(v)
        } else {
            Err(No::Back)
        }
    }
}
fn digit(c: char) -> Option<u32> {
    let x = c as u32;
    if (c >= '0') & (c <= '9') {
        Some(x - '0' as u32)
    } else if (c >= 'A') & (c <= 'F') {
        Some(x - 'A' as u32 + 10)
    } else {
        None
    }
}

fn c25(t: &[char]) {
    note_text(t);
    let got = rules_from_peg(&string(t));
    let mut r = Reader { t, i: 0, depth: 0 };
    match r.all() {
        Ok(defs) => {
            reach(1);
            match &got {
                Err(e) => {
                    if noting() {
                        note(&format!("refused: {}", e.to_string().chars().take(300).collect::<String>()));
                    }
                    check(false, 1)
                }
                Ok(s) => {
                    let mut distinct = 0;
                    for (i, d) in defs.iter().enumerate() {
                        if defs[i + 1..].iter().any(|e| e.name == d.name) {
                            continue;
                        }
                        distinct += 1;
                        // which of several counts is only said for rules of one level
                        let mixed = defs.iter().any(|e| e.name == d.name && e.depth != d.depth);
                        match s.0.get(&string(&d.name)) {
                            None => check(false, 2),
                            Some(e) => {
                                if !mixed {
                                    let a = norm_e(e);
                                    if noting() && a != d.means {
                                        note(&format!("{} is {} and not {}", string(&d.name), show_n(&a), show_n(&d.means)));
                                    }
                                    check(a == d.means, 3);
                                }
                            }
                        }
                    }
                    check(s.0.len() == distinct, 4);
                    digest(distinct as u64);
                }
            }
        }
        Err(No::Back) => {
            reach(2);
            check(got.is_err(), 5);
        }
        Err(No::Open(at)) => {
            // the parenthesis left open is what is reported, where it could have been closed
            reach(3);
            match &got {
                Ok(_) => check(false, 6),
                Err(peg::Error::Parser(e)) => {
                    if noting() {
                        note(&format!("message {:?} at {} and not {}", e.descr, e.pos.n, at));
                    }
                    check(e.priority == ErrPriority::Critical, 7);
                    check(e.pos.n == at, 8);
                    check(e.descr.contains("')'"), 9);
                    digest(e.pos.n as u64);
                }
                Err(_) => check(false, 10),
            }
        }
    }
}
pub fn c25_any() {
    let n = choice(param(0) + 1);
    c25(&text(n, '\u{0}', '\u{7f}'));
}
pub fn c25_tail() {
    c25(&tail(param(0)));
}
pub fn tail(max: usize) -> Vec<char> {
    let n = choice(max + 1);
    let mut t = chars(["a=", "a='b'", "a=b\n", "a=[", "a=(b", "a=\"", "m{a=b\n", "a=b error"][choice(8)]);
    for _ in 0..n {
        t.push(ascii(false));
    }
    if flag() {
        t.push('\n');
    }
    t
}
pub fn c25_mutant() {
    c25(&mutant(BASES[choice(param(1))], param(0), false));
}
pub fn c25_unicode() {
    c25(&mutant(BASES[choice(BASES.len())], 1, true));
}
pub fn c25_cut() {
    c25(&cut(BASES[choice(BASES.len())]));
}
/// two correct texts one after the other, one cut off anywhere before, with a character between
/// a character of several bytes, and a mistake after it
pub fn c25_pair() {
    c25(&pair(BASES[param(0) + choice(param(1))]));
}
pub fn c25_joined() {
    let (a, b) = (chars(BASES[choice(BASES.len())]), chars(BASES[choice(BASES.len())]));
    let i = choice(a.len() + 1);
    let mut t = a[..i].to_vec();
    if flag() {
        t.push(ascii(false));
    }
    t.extend(b);
    c25(&t);
}
/// tokens in any order
pub fn c25_tokens() {
    c25(&tokens(param(0)));
}
pub fn tokens(n: usize) -> Vec<char> {
    let toks = ["a", "b.c", "=", "/", "(", ")", "'x'", ".", "!", "*", "?", " ", "\n", "error('e')", "{", "}", "[a-z]", "//", "/*", "*/", "\"", "error"];
    let mut t = chars("a=");
    for _ in 0..n {
        put(&mut t, toks[choice(toks.len())]);
    }
    put(&mut t, "\n");
    t
}
/// what other notations have and this one may not, put in at, or instead of, any place of correct texts
pub const FOREIGN: [&str; 44] = [
    "<-", ":=", "::=", "->", "=>", "==", ";", ",", "|", "||", "&", "&&", "~", "{2}", "{2,}", "{1,2}", "**", "++", "??", "+?", "%", "@", "^", "$", "[^a]", "[]", "\\s", "\\n", "#c\n", "--c\n", "\t",
    "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{85}", "<a>", "`a`", "'''", "\"\"", "''", "..", "i'a'", "_",
];
pub fn foreign(base: &str) -> Vec<char> {
    let b = chars(base);
    let i = choice(b.len() + 1);
    let mut t: Vec<char> = b[..i].to_vec();
    put(&mut t, FOREIGN[choice(FOREIGN.len())]);
    let skip = choice(2);
    t.extend(b[i..].iter().copied().skip(skip));
    t
}
/// p1 texts from number p0 on
pub fn c25_foreign() {
    c25(&foreign(BASES[param(0) + choice(param(1))]));
}
/// well-formed texts, members and alternatives in any arrangement, without the final line end etc.
pub fn c25_trees() {
    let c = Cfg { leaves: L_LIT1 | L_REF | L_ERR, ops: O_AND | O_OR | O_NOT | O_STAR, lo: '^', hi: '~' };
    let (g, _) = tree(param(0), &c);
    let mut t = chars("a = ");
    plain(&g, &mut t);
    put(&mut t, "\n");
    c25(&t);
}
/// written without any parentheses: what is read is what precedence makes of it, or it is refused
fn plain(g: &G, t: &mut Vec<char>) {
    let par = choice(2) == 1;
    if par {
        put(t, "(");
    }
    match g {
        G::And(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    put(t, " ");
                }
                plain(x, t);
            }
        }
        G::Or(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    put(t, "/");
                }
                plain(x, t);
            }
        }
        G::Not(x) => {
            put(t, "!");
            plain(x, t);
        }
        G::Rep(x, _, _) => {
            plain(x, t);
            put(t, "*");
        }
        G::Error(_) => put(t, "error('e')"),
        G::Lit(x) => {
            put(t, "'");
            t.extend(x.iter().copied());
            put(t, "'");
        }
        _ => put(t, "r"),
    }
    if par {
        put(t, ")");
    }
}
