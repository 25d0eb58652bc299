//! Textual LLVM IR -> compact executable form.
//! Functions reachable from the harness are parsed on demand while "linking".

use std::collections::{HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Label,
    Metadata,
    Opaque,
}

impl Ty {
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                if *w <= 64 {
                    1
                } else {
                    ((*w + 63) / 64) as usize
                }
            }
            Ty::Ptr | Ty::Float(_) => 1,
            Ty::Struct(v, _) => v.iter().map(|t| t.slots()).sum(),
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as usize * t.slots(),
            _ => 1,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(_, _) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for t in v {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for (i, t) in v.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if i == idx {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off on non-struct"),
        }
    }
    /// (byte offset, width in bits) of every scalar slot, in slot order
    pub fn scalars(&self, base: u64, out: &mut Vec<(u32, u32)>) {
        match self {
            Ty::Int(w) => {
                if *w <= 64 {
                    out.push((base as u32, *w));
                } else {
                    let mut left = *w;
                    let mut o = base;
                    while left > 0 {
                        let k = left.min(64);
                        out.push((o as u32, k));
                        left -= k;
                        o += 8;
                    }
                }
            }
            Ty::Ptr => out.push((base as u32, 64)),
            Ty::Float(w) => out.push((base as u32, *w)),
            Ty::Struct(v, _) => {
                for i in 0..v.len() {
                    v[i].scalars(base + self.field_off(i), out);
                }
            }
            Ty::Array(n, t) => {
                for i in 0..*n {
                    t.scalars(base + i * t.size(), out);
                }
            }
            Ty::Vector(n, t) => {
                let es = match **t {
                    Ty::Int(w) if w % 8 != 0 => panic!("vector of i{} in memory", w),
                    _ => t.size(),
                };
                for i in 0..*n {
                    t.scalars(base + i * es, out);
                }
            }
            _ => {}
        }
    }
    /// widths of the scalar slots
    pub fn widths(&self, out: &mut Vec<u32>) {
        match self {
            Ty::Int(w) => {
                let mut left = *w;
                while left > 64 {
                    out.push(64);
                    left -= 64;
                }
                out.push(left);
            }
            Ty::Ptr => out.push(64),
            Ty::Float(w) => out.push(*w),
            Ty::Struct(v, _) => v.iter().for_each(|t| t.widths(out)),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                for _ in 0..*n {
                    t.widths(out)
                }
            }
            _ => {}
        }
    }
    fn slot_of(&self, idx: &[u64]) -> (usize, Ty) {
        if idx.is_empty() {
            return (0, self.clone());
        }
        match self {
            Ty::Struct(v, _) => {
                let i = idx[0] as usize;
                let before: usize = v[..i].iter().map(|t| t.slots()).sum();
                let (o, t) = v[i].slot_of(&idx[1..]);
                (before + o, t)
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => {
                let (o, tt) = t.slot_of(&idx[1..]);
                (idx[0] as usize * t.slots() + o, tt)
            }
            _ => panic!("slot_of"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    S(u32),
    C(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    Ucmp,
    Scmp,
    Expect,
    IsConstant,
    TlsAddr,
    Trap,
    PtrMask,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceUmax,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Strlen,
    Memchr,
    MemcpyLib,
    MemmoveLib,
    MemsetLib,
    Getrandom,
    HashKeys,
    // harness API
    SymBits,
    SymRange,
    SymChoice,
    Assume,
    Check,
    Reach,
    Digest,
    Concretize,
    Param,
    DebugChar,
    HashOne,
    DebugStr,
    AtExitReg,
    RetZero,
    Unsupported,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // instruction index
    pub copies: Box<[(u32, Opd)]>,
    pub overlap: bool,
}

#[derive(Debug)]
pub enum Ins {
    Bin {
        op: Bin,
        w: u32,
        dst: u32,
        a: Opd,
        b: Opd,
    },
    Icmp {
        p: Pred,
        w: u32,
        dst: u32,
        a: Opd,
        b: Opd,
    },
    Select {
        dst: u32,
        c: Opd,
        ws: Box<[u32]>,
        a: Box<[Opd]>,
        b: Box<[Opd]>,
    },
    Cast {
        k: Cast,
        fw: u32,
        tw: u32,
        dst: u32,
        a: Opd,
    },
    Copy {
        dst: u32,
        src: Box<[Opd]>,
    },
    /// vector/int reinterpretation
    Bitcast {
        dst: u32,
        dws: Box<[u32]>,
        src: Box<[Opd]>,
        sws: Box<[u32]>,
    },
    Load {
        dst: u32,
        w: u32,
        p: Opd,
    },
    LoadN {
        dst: u32,
        parts: Box<[(u32, u32)]>,
        p: Opd,
    },
    Store {
        w: u32,
        v: Opd,
        p: Opd,
    },
    StoreN {
        parts: Box<[(u32, u32)]>,
        v: Box<[Opd]>,
        p: Opd,
    },
    Gep {
        dst: u32,
        base: Opd,
        off: i64,
        terms: Box<[(Opd, u32, i64)]>,
    },
    ExtractElemDyn {
        dst: u32,
        es: u32,
        n: u32,
        src: Box<[Opd]>,
        idx: Opd,
    },
    InsertElemDyn {
        dst: u32,
        es: u32,
        n: u32,
        src: Box<[Opd]>,
        v: Box<[Opd]>,
        idx: Opd,
    },
    Br(u32), // edge
    CondBr {
        c: Opd,
        t: u32,
        f: u32,
    },
    Switch {
        w: u32,
        v: Opd,
        cases: Box<[(u64, u32)]>,
        def: u32,
    },
    Ret {
        v: Box<[Opd]>,
    },
    Unreachable,
    Call {
        f: u32,
        dst: u32,
        ndst: u32,
        args: Box<[Opd]>,
    },
    CallInd {
        p: Opd,
        dst: u32,
        ndst: u32,
        args: Box<[Opd]>,
    },
    Intr {
        k: Intr,
        dst: u32,
        w: u32,
        args: Box<[Opd]>,
    },
    Ext {
        k: Ext,
        name: Box<str>,
        dst: u32,
        ndst: u32,
        args: Box<[Opd]>,
    },
    Alloca {
        dst: u32,
        off: u32,
    },
    AtomicRmw {
        op: u8,
        w: u32,
        dst: u32,
        p: Opd,
        v: Opd,
    },
    CmpXchg {
        w: u32,
        dst: u32,
        p: Opd,
        c: Opd,
        n: Opd,
    },
    BadOp(Box<str>),
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nslots: u32,
    pub frame_size: u32,
    pub code: Vec<Ins>,
    pub edges: Vec<Edge>,
    pub interesting: bool,
}

pub struct GlobalInit {
    pub name: String,
    pub bytes: Vec<u8>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;

pub struct Program {
    pub funcs: Vec<Option<Func>>,
    pub func_names: Vec<String>,
    pub func_ext: Vec<Option<Ext>>,
    pub globals: Vec<GlobalInit>, // objid = 1 + index
    pub func_index: HashMap<String, u32>,
}

// ------------------------------------------------------------------ lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    Num(i128),
    FHex(&'a str),
    P(char),
    CStr(Vec<u8>),
    Str,
    Meta,
    Attr,
    Label(String),
    Nl,
    Eof,
}

struct Lexer<'a> {
    s: &'a [u8],
    i: usize,
    src: &'a str,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    fn new(src: &'a str) -> Self {
        Lexer {
            s: src.as_bytes(),
            i: 0,
            src,
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        let mut out = vec![];
        self.i += 1;
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            match self.s[self.i] {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'\n' => {
                self.i += 1;
                Tok::Nl
            }
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.i;
                    while self.i < self.s.len() && is_name(self.s[self.i]) {
                        self.i += 1;
                    }
                    self.src[st..self.i].to_string()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'"' {
                    self.quoted();
                    return Tok::Meta;
                }
                while self.i < self.s.len() && is_name(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && is_name(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let q = self.quoted();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(String::from_utf8_lossy(&q).into_owned());
                }
                Tok::Str
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            _ if is_name(c) => {
                let st = self.i;
                while self.i < self.s.len() && is_name(self.s[self.i]) {
                    self.i += 1;
                }
                let w = &self.src[st..self.i];
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(w.to_string());
                }
                if c == b'-' || c.is_ascii_digit() {
                    if let Ok(n) = w.parse::<i128>() {
                        return Tok::Num(n);
                    }
                    if let Ok(n) = w.parse::<u128>() {
                        return Tok::Num(n as i128);
                    }
                    return Tok::FHex(w);
                }
                Tok::Word(w)
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
}

struct P<'a> {
    lx: Lexer<'a>,
    cur: Tok<'a>,
    peeked: Option<Tok<'a>>,
}

impl<'a> P<'a> {
    fn new(src: &'a str) -> Self {
        let mut lx = Lexer::new(src);
        let cur = lx.next();
        P {
            lx,
            cur,
            peeked: None,
        }
    }
    fn adv(&mut self) -> Tok<'a> {
        let n = match self.peeked.take() {
            Some(t) => t,
            None => self.lx.next(),
        };
        std::mem::replace(&mut self.cur, n)
    }
    fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() {
            self.peeked = Some(self.lx.next());
        }
        self.peeked.as_ref().unwrap()
    }
    fn is(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!(
                "IR parse: expected '{}' got {:?} near {}",
                c,
                self.cur,
                self.near()
            );
        }
    }
    fn near(&self) -> String {
        let a = self.lx.i.saturating_sub(120);
        let b = (self.lx.i + 60).min(self.lx.s.len());
        String::from_utf8_lossy(&self.lx.s[a..b]).into_owned()
    }
    fn word(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Word(x) if *x == w)
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.cur, Tok::Nl | Tok::Eof) {
            self.adv();
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("skip_parens"),
                _ => {}
            }
        }
    }
}

enum Sym {
    Func(u32),
    Global(u32),
}

/// parsed constant or local operand, flattened
type Flat = Vec<Opd>;

pub struct Linker<'a> {
    src: &'a str,
    fn_src: HashMap<&'a str, (usize, usize, bool)>, // name -> (start,end) of define; noreturn
    gl_src: HashMap<String, (usize, usize)>,
    types: HashMap<String, Ty>,
    aliases: HashMap<String, String>,
    attr_noreturn: HashMap<u32, bool>,
    pub prog: Program,
    g_index: HashMap<String, u32>,
    fqueue: VecDeque<u32>,
    gqueue: VecDeque<u32>,
    relocs: Vec<(u32, usize, u64)>,
}

fn ext_of(name: &str) -> Option<Ext> {
    Some(match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "bcmp" | "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memchr" => Ext::Memchr,
        "memcpy" => Ext::MemcpyLib,
        "memmove" => Ext::MemmoveLib,
        "memset" => Ext::MemsetLib,
        "getrandom" => Ext::Getrandom,
        "vsym_bits" => Ext::SymBits,
        "vsym_range" => Ext::SymRange,
        "vsym_choice" => Ext::SymChoice,
        "vassume" => Ext::Assume,
        "vcheck" => Ext::Check,
        "vreach" => Ext::Reach,
        "vdigest" => Ext::Digest,
        "vconcretize" => Ext::Concretize,
        "vparam" => Ext::Param,
        "__cxa_thread_atexit_impl" => Ext::AtExitReg,
        _ => return None,
    })
}

fn hook_of(name: &str) -> Option<Ext> {
    // mangled (v0) names of std functions replaced by stubs
    if name.contains("20hashmap_random_keys") {
        return Some(Ext::HashKeys);
    }
    if name.contains("6random11RandomState")
        && name.contains("11BuildHasher8hash_one")
        && !name.starts_with("_RNC")
    {
        return Some(Ext::HashOne);
    }
    if name.starts_with("_RNvX") && name.contains("5Debug3fmt") {
        // <char as Debug>::fmt : ..core3fmtcNt.._5Debug3fmt ; <str as Debug>::fmt : ..3fmteNt..
        if let Some(p) = name.find("4core3fmt") {
            let rest = &name[p + 9..];
            if rest.starts_with('c') {
                return Some(Ext::DebugChar);
            }
            if rest.starts_with('e') {
                return Some(Ext::DebugStr);
            }
        }
    }
    None
}

fn intr_of(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let st = |p: &str| n.starts_with(p);
    Some(if st("memcpy") {
        Intr::Memcpy
    } else if st("memmove") {
        Intr::Memmove
    } else if st("memset") {
        Intr::Memset
    } else if st("ctpop") {
        Intr::Ctpop
    } else if st("cttz") {
        Intr::Cttz
    } else if st("ctlz") {
        Intr::Ctlz
    } else if st("bswap") {
        Intr::Bswap
    } else if st("bitreverse") {
        Intr::Bitreverse
    } else if st("fshl") {
        Intr::Fshl
    } else if st("fshr") {
        Intr::Fshr
    } else if st("umin") {
        Intr::Umin
    } else if st("umax") {
        Intr::Umax
    } else if st("smin") {
        Intr::Smin
    } else if st("smax") {
        Intr::Smax
    } else if st("abs.") {
        Intr::Abs
    } else if st("uadd.with.overflow") {
        Intr::UaddO
    } else if st("usub.with.overflow") {
        Intr::UsubO
    } else if st("umul.with.overflow") {
        Intr::UmulO
    } else if st("sadd.with.overflow") {
        Intr::SaddO
    } else if st("ssub.with.overflow") {
        Intr::SsubO
    } else if st("smul.with.overflow") {
        Intr::SmulO
    } else if st("uadd.sat") {
        Intr::UaddSat
    } else if st("usub.sat") {
        Intr::UsubSat
    } else if st("ucmp") {
        Intr::Ucmp
    } else if st("scmp") {
        Intr::Scmp
    } else if st("expect") {
        Intr::Expect
    } else if st("is.constant") {
        Intr::IsConstant
    } else if st("threadlocal.address") {
        Intr::TlsAddr
    } else if st("trap") || st("ubsantrap") {
        Intr::Trap
    } else if st("ptrmask") {
        Intr::PtrMask
    } else if st("vector.reduce.or") {
        Intr::ReduceOr
    } else if st("vector.reduce.and") {
        Intr::ReduceAnd
    } else if st("vector.reduce.add") {
        Intr::ReduceAdd
    } else if st("vector.reduce.umax") {
        Intr::ReduceUmax
    } else if st("lifetime")
        || st("assume")
        || st("experimental.noalias")
        || st("dbg")
        || st("x86.sse2.pause")
        || st("prefetch")
        || st("invariant")
        || st("donothing")
        || st("sideeffect")
        || st("fake.use")
    {
        Intr::Nop
    } else {
        return None;
    })
}

impl<'a> Linker<'a> {
    pub fn new(src: &'a str) -> Self {
        let mut l = Linker {
            src,
            fn_src: HashMap::new(),
            gl_src: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            attr_noreturn: HashMap::new(),
            prog: Program {
                funcs: vec![],
                func_names: vec![],
                func_ext: vec![],
                globals: vec![],
                func_index: HashMap::new(),
            },
            g_index: HashMap::new(),
            fqueue: VecDeque::new(),
            gqueue: VecDeque::new(),
            relocs: vec![],
        };
        l.index();
        l
    }

    fn index(&mut self) {
        let b = self.src.as_bytes();
        let mut i = 0;
        let mut pending: Vec<(&'a str, usize, usize, u32)> = vec![];
        while i < b.len() {
            let e = memnl(b, i);
            let line = &self.src[i..e];
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let name = sym_name(&line[at + 1..]);
                // find end "\n}"
                let mut j = e;
                loop {
                    let k = memnl(b, j + 1);
                    if &self.src[j + 1..k] == "}" {
                        j = k;
                        break;
                    }
                    j = k;
                }
                let mut attr = u32::MAX;
                if let Some(p) = line.rfind(" #") {
                    let d: String = line[p + 2..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect();
                    if let Ok(n) = d.parse() {
                        attr = n;
                    }
                }
                pending.push((name, i, j, attr));
                i = j + 1;
                continue;
            } else if line.starts_with('@') {
                let name = if line.as_bytes()[1] == b'"' {
                    let q = line[2..].find('"').unwrap();
                    line[2..2 + q].to_string()
                } else {
                    sym_name(&line[1..]).to_string()
                };
                if line.contains(" alias ")
                    && !line.contains(" constant ")
                    && !line.contains(" global ")
                {
                    if let Some(p) = line.rfind('@') {
                        self.aliases
                            .insert(name.clone(), sym_name(&line[p + 1..]).to_string());
                    }
                } else {
                    self.gl_src.insert(name, (i, e));
                }
            } else if line.starts_with('%') {
                if let Some(p) = line.find(" = type ") {
                    let nm = line[1..p].trim_matches('"').to_string();
                    let tsrc = &line[p + 8..];
                    if tsrc.starts_with("opaque") {
                        self.types.insert(nm, Ty::Opaque);
                    } else {
                        let mut ps = P::new(tsrc);
                        let t = self.ty(&mut ps);
                        self.types.insert(nm, t);
                    }
                }
            } else if line.starts_with("attributes #") {
                let d: String = line[12..]
                    .chars()
                    .take_while(|c| c.is_ascii_digit())
                    .collect();
                let n: u32 = d.parse().unwrap();
                self.attr_noreturn.insert(n, line.contains(" noreturn "));
            }
            i = e + 1;
        }
        for (n, s, e, a) in pending {
            let nr = self.attr_noreturn.get(&a).copied().unwrap_or(false);
            self.fn_src.insert(n, (s, e, nr));
        }
    }

    pub fn has_func(&self, name: &str) -> bool {
        self.fn_src.contains_key(name)
    }

    pub fn func_id(&mut self, name: &str) -> u32 {
        let name = match self.aliases.get(name) {
            Some(n) => n.clone(),
            None => name.to_string(),
        };
        if let Some(&i) = self.prog.func_index.get(&name) {
            return i;
        }
        let id = self.prog.funcs.len() as u32;
        self.prog.func_index.insert(name.clone(), id);
        self.prog.funcs.push(None);
        let mut ext = ext_of(&name).or_else(|| hook_of(&name));
        let mut parse = true;
        match ext {
            Some(Ext::DebugChar) | Some(Ext::DebugStr) | Some(Ext::HashOne) => {}
            Some(_) => parse = false,
            None => match self.fn_src.get(name.as_str()) {
                None => {
                    ext = Some(Ext::Unsupported);
                    parse = false;
                }
                Some((_, _, true)) => {
                    ext = Some(Ext::Panic);
                    parse = false;
                }
                _ => {}
            },
        }
        self.prog.func_names.push(name);
        self.prog.func_ext.push(ext);
        if parse {
            self.fqueue.push_back(id);
        }
        id
    }

    fn sym(&mut self, name: &str) -> Sym {
        let name = match self.aliases.get(name) {
            Some(n) => n.clone(),
            None => name.to_string(),
        };
        if self.gl_src.contains_key(&name) {
            if let Some(&i) = self.g_index.get(&name) {
                return Sym::Global(i);
            }
            let id = self.prog.globals.len() as u32;
            self.prog.globals.push(GlobalInit {
                name: name.clone(),
                bytes: vec![],
            });
            self.g_index.insert(name, id);
            self.gqueue.push_back(id);
            Sym::Global(id)
        } else {
            Sym::Func(self.func_id(&name))
        }
    }

    fn sym_addr(&mut self, name: &str) -> u64 {
        match self.sym(name) {
            Sym::Global(g) => ((g as u64) + 1) << 32,
            Sym::Func(f) => (FUNC_BASE + f as u64) << 32,
        }
    }

    pub fn link(&mut self) {
        loop {
            if let Some(f) = self.fqueue.pop_front() {
                let name = self.prog.func_names[f as usize].clone();
                let (s, e, _) = self.fn_src[name.as_str()];
                let src: &'a str = &self.src[s..e];
                let func = self.parse_func(&name, src);
                self.prog.funcs[f as usize] = Some(func);
            } else if let Some(g) = self.gqueue.pop_front() {
                self.parse_global(g);
            } else {
                break;
            }
        }
        for (g, off, v) in std::mem::take(&mut self.relocs) {
            self.prog.globals[g as usize].bytes[off..off + 8].copy_from_slice(&v.to_le_bytes());
        }
    }

    fn parse_global(&mut self, g: u32) {
        let name = self.prog.globals[g as usize].name.clone();
        let (s, e) = self.gl_src[&name];
        let src: &'a str = &self.src[s..e];
        let mut p = P::new(src);
        p.adv(); // name
        p.expect('=');
        let mut external = false;
        loop {
            if p.word("constant") || p.word("global") {
                p.adv();
                break;
            }
            if p.word("external") || p.word("extern_weak") {
                external = true;
            }
            let t = p.adv();
            if matches!(t, Tok::Word("thread_local") | Tok::Word("addrspace")) && p.is('(') {
                p.skip_parens();
            }
            if t == Tok::Eof {
                panic!("bad global {}", name);
            }
        }
        let ty = self.ty(&mut p);
        let size = ty.size() as usize;
        let mut bytes = vec![0u8; size];
        if !external {
            self.const_bytes(&mut p, &ty, &mut bytes, 0, g);
        }
        self.prog.globals[g as usize].bytes = bytes;
    }

    fn const_bytes(&mut self, p: &mut P<'a>, ty: &Ty, out: &mut [u8], off: usize, g: u32) {
        match &p.cur {
            Tok::Word("zeroinitializer")
            | Tok::Word("undef")
            | Tok::Word("poison")
            | Tok::Word("null")
            | Tok::Word("none") => {
                p.adv();
                return;
            }
            _ => {}
        }
        match ty {
            Ty::Struct(fs, packed) => {
                if *packed {
                    p.expect('<');
                }
                p.expect('{');
                for (i, _) in fs.iter().enumerate() {
                    if i > 0 {
                        p.expect(',');
                    }
                    let t = self.ty(p);
                    let o = off + ty.field_off(i) as usize;
                    self.const_bytes(p, &t, out, o, g);
                }
                p.expect('}');
                if *packed {
                    p.expect('>');
                }
            }
            Ty::Array(n, t) => {
                if let Tok::CStr(v) = &p.cur {
                    out[off..off + v.len()].copy_from_slice(v);
                    p.adv();
                    return;
                }
                p.expect('[');
                for i in 0..*n {
                    if i > 0 {
                        p.expect(',');
                    }
                    let tt = self.ty(p);
                    self.const_bytes(p, &tt, out, off + (i * t.size()) as usize, g);
                }
                p.expect(']');
            }
            _ => {
                let v = self.constant(p, ty);
                let mut sc = vec![];
                ty.scalars(0, &mut sc);
                for ((o, w), v) in sc.iter().zip(v.iter()) {
                    let c = match v {
                        Opd::C(c) => *c,
                        _ => panic!(),
                    };
                    let nb = ((*w + 7) / 8) as usize;
                    let st = off + *o as usize;
                    out[st..st + nb].copy_from_slice(&c.to_le_bytes()[..nb]);
                }
            }
        }
    }

    // ---------------------------------------------------------------- types

    fn ty(&mut self, p: &mut P<'a>) -> Ty {
        let t = p.adv();
        let mut r = match t {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if p.word("addrspace") {
                    p.adv();
                    p.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::Float(32),
            Tok::Word("double") => Ty::Float(64),
            Tok::Word("half") | Tok::Word("bfloat") => Ty::Float(16),
            Tok::Word("fp128") | Tok::Word("x86_fp80") => Ty::Float(128),
            Tok::Word("label") => Ty::Label,
            Tok::Word("metadata") | Tok::Word("token") => Ty::Metadata,
            Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                Ty::Int(w[1..].parse().unwrap())
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Opaque),
            Tok::P('{') => {
                let mut v = vec![];
                if !p.is('}') {
                    loop {
                        v.push(self.ty(p));
                        if !p.eat(',') {
                            break;
                        }
                    }
                }
                p.expect('}');
                Ty::Struct(v, false)
            }
            Tok::P('[') => {
                let n = self.num(p);
                assert!(p.eat_word("x"));
                let t = self.ty(p);
                p.expect(']');
                Ty::Array(n as u64, Box::new(t))
            }
            Tok::P('<') => {
                if p.is('{') {
                    match self.ty(p) {
                        Ty::Struct(v, _) => {
                            p.expect('>');
                            Ty::Struct(v, true)
                        }
                        _ => panic!(),
                    }
                } else {
                    let n = self.num(p);
                    assert!(p.eat_word("x"));
                    let t = self.ty(p);
                    p.expect('>');
                    Ty::Vector(n as u64, Box::new(t))
                }
            }
            t => panic!("IR parse: type expected, got {:?} near {}", t, p.near()),
        };
        // function type:  "i32 (ptr, ...)"  (only used by varargs calls)
        if p.is('(') {
            // caller decides; function types appear only in varargs calls
            let _ = &mut r;
        }
        r
    }

    fn num(&mut self, p: &mut P<'a>) -> i128 {
        match p.adv() {
            Tok::Num(n) => n,
            t => panic!("IR parse: number expected, got {:?}", t),
        }
    }

    // ---------------------------------------------------------------- constants

    fn split_int(v: i128, ty: &Ty) -> Flat {
        match ty {
            Ty::Int(w) if *w <= 64 => vec![Opd::C((v as u64) & mask(*w))],
            Ty::Int(w) => {
                let mut out = vec![];
                let mut left = *w;
                let mut u = v as u128;
                while left > 0 {
                    let k = left.min(64);
                    out.push(Opd::C((u as u64) & mask(k)));
                    u = if k == 64 { u >> 64 } else { 0 };
                    left -= k;
                }
                out
            }
            Ty::Ptr => vec![Opd::C(v as u64)],
            _ => panic!("int const of type {:?}", ty),
        }
    }

    fn constant(&mut self, p: &mut P<'a>, ty: &Ty) -> Flat {
        match p.adv() {
            Tok::Num(n) => match ty {
                Ty::Float(_) => vec![Opd::C((n as f64).to_bits())],
                _ => Self::split_int(n, ty),
            },
            Tok::FHex(h) => {
                let v = if let Some(x) = h.strip_prefix("0x") {
                    u64::from_str_radix(x, 16).unwrap_or(0)
                } else {
                    h.parse::<f64>().map(|f| f.to_bits()).unwrap_or(0)
                };
                vec![Opd::C(v)]
            }
            Tok::Word("true") => vec![Opd::C(1)],
            Tok::Word("false") => vec![Opd::C(0)],
            Tok::Word("null")
            | Tok::Word("undef")
            | Tok::Word("poison")
            | Tok::Word("zeroinitializer")
            | Tok::Word("none") => vec![Opd::C(0); ty.slots()],
            Tok::Word("splat") => {
                p.expect('(');
                let t = self.ty(p);
                let v = self.constant(p, &t);
                p.expect(')');
                let n = match ty {
                    Ty::Vector(n, _) => *n as usize,
                    _ => panic!(),
                };
                let mut out = vec![];
                for _ in 0..n {
                    out.extend(v.iter().cloned());
                }
                out
            }
            Tok::Global(n) => vec![Opd::C(self.sym_addr(&n))],
            Tok::CStr(v) => v.into_iter().map(|b| Opd::C(b as u64)).collect(),
            Tok::P('<') => {
                if p.is('{') {
                    let r = self.constant(p, ty);
                    p.expect('>');
                    return r;
                }
                self.const_list(p, '>')
            }
            Tok::P('{') => self.const_list(p, '}'),
            Tok::P('[') => self.const_list(p, ']'),
            Tok::Word("getelementptr") => {
                while !p.is('(') {
                    p.adv();
                    if p.is('(') {
                        // might be inrange(...)
                        break;
                    }
                }
                if let Tok::Num(_) = p.peek() {
                    // inrange(-8, 8)
                    p.skip_parens();
                }
                p.expect('(');
                let (base, off, terms) = self.gep_body(p, &HashMap::new());
                p.expect(')');
                assert!(terms.is_empty());
                match base {
                    Opd::C(c) => vec![Opd::C(c.wrapping_add(off as u64))],
                    _ => panic!(),
                }
            }
            Tok::Word("ptrtoint")
            | Tok::Word("inttoptr")
            | Tok::Word("bitcast")
            | Tok::Word("trunc")
            | Tok::Word("zext")
            | Tok::Word("ptrtoaddr") => {
                p.expect('(');
                let t = self.ty(p);
                let v = self.constant(p, &t);
                assert!(p.eat_word("to"));
                let t2 = self.ty(p);
                p.expect(')');
                match (v.as_slice(), &t2) {
                    ([Opd::C(c)], Ty::Int(w)) if *w <= 64 => vec![Opd::C(*c & mask(*w))],
                    _ => v,
                }
            }
            Tok::Word(op @ ("add" | "sub" | "xor" | "and" | "or" | "mul")) => {
                while !p.is('(') {
                    p.adv();
                }
                p.expect('(');
                let t = self.ty(p);
                let a = self.constant(p, &t);
                p.expect(',');
                let t = self.ty(p);
                let b = self.constant(p, &t);
                p.expect(')');
                match (a[0], b[0]) {
                    (Opd::C(x), Opd::C(y)) => {
                        let r = match op {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "or" => x | y,
                            _ => x.wrapping_mul(y),
                        };
                        vec![Opd::C(r)]
                    }
                    _ => panic!(),
                }
            }
            Tok::Meta => vec![Opd::C(0)],
            t => panic!("IR parse: constant expected, got {:?} near {}", t, p.near()),
        }
    }

    fn const_list(&mut self, p: &mut P<'a>, end: char) -> Flat {
        let mut out = vec![];
        if !p.is(end) {
            loop {
                let t = self.ty(p);
                out.extend(self.constant(p, &t));
                if !p.eat(',') {
                    break;
                }
            }
        }
        p.expect(end);
        out
    }

    fn operand(&mut self, p: &mut P<'a>, ty: &Ty, env: &HashMap<String, (u32, Ty)>) -> Flat {
        if let Tok::Local(_) = p.cur {
            let n = match p.adv() {
                Tok::Local(n) => n,
                _ => unreachable!(),
            };
            let (s, t) = env
                .get(&n)
                .unwrap_or_else(|| panic!("unknown local %{} near {}", n, p.near()));
            debug_assert!(t.slots() == ty.slots());
            return (0..t.slots() as u32).map(|i| Opd::S(s + i)).collect();
        }
        self.constant(p, ty)
    }

    /// after the opening: "T, ptr base, idx..."
    fn gep_body(
        &mut self,
        p: &mut P<'a>,
        env: &HashMap<String, (u32, Ty)>,
    ) -> (Opd, i64, Vec<(Opd, u32, i64)>) {
        let mut ty = self.ty(p);
        p.expect(',');
        let bt = self.ty(p);
        let base = self.operand(p, &bt, env)[0];
        let mut off = 0i64;
        let mut terms = vec![];
        let mut first = true;
        while p.is(',') {
            // may be metadata
            if matches!(p.peek(), Tok::Meta) {
                break;
            }
            p.adv();
            let it = self.ty(p);
            let iw = match it {
                Ty::Int(w) => w,
                _ => panic!("gep idx type"),
            };
            let idx = self.operand(p, &it, env)[0];
            let scale;
            if first {
                scale = ty.size() as i64;
                first = false;
            } else {
                match ty.clone() {
                    Ty::Struct(fs, _) => {
                        let i = match idx {
                            Opd::C(c) => c as usize,
                            _ => panic!(),
                        };
                        off += ty.field_off(i) as i64;
                        ty = fs[i].clone();
                        continue;
                    }
                    Ty::Array(_, t) | Ty::Vector(_, t) => {
                        scale = t.size() as i64;
                        ty = *t;
                    }
                    t => panic!("gep into {:?}", t),
                }
            }
            match idx {
                Opd::C(c) => off = off.wrapping_add(sext(c, iw).wrapping_mul(scale)),
                o => terms.push((o, iw, scale)),
            }
        }
        (base, off, terms)
    }

    // ---------------------------------------------------------------- functions

    fn skip_attrs(&mut self, p: &mut P<'a>) -> Option<Ty> {
        // parameter attributes between a type and a value. returns byval type if any
        loop {
            match &p.cur {
                Tok::Word(w) => {
                    let w = *w;
                    match w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer"
                        | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast"
                        | "trunc" | "zext" | "sub" | "add" | "xor" | "none" | "and" | "or"
                        | "mul" => return None,
                        "align" => {
                            p.adv();
                            if p.is('(') {
                                p.skip_parens();
                            } else {
                                p.adv();
                            }
                        }
                        _ => {
                            p.adv();
                            if p.is('(') {
                                p.skip_parens();
                            }
                        }
                    }
                }
                Tok::Str => {
                    p.adv();
                    if p.eat('=') {
                        p.adv();
                    }
                }
                _ => return None,
            }
        }
    }

    fn parse_func(&mut self, name: &str, src: &'a str) -> Func {
        let mut p = P::new(src);
        // header up to '@name('
        while !matches!(p.cur, Tok::Global(_)) {
            p.adv();
        }
        p.adv();
        p.expect('(');
        let mut env: HashMap<String, (u32, Ty)> = HashMap::new();
        let mut nslots = 0u32;
        let mut counter = 0u32;
        if !p.is(')') {
            loop {
                if p.is('.') || matches!(p.cur, Tok::Word("...")) {
                    p.adv();
                    break;
                }
                let t = self.ty(&mut p);
                self.skip_attrs(&mut p);
                let nm = if let Tok::Local(_) = p.cur {
                    match p.adv() {
                        Tok::Local(n) => n,
                        _ => unreachable!(),
                    }
                } else {
                    let n = format!("{}", counter);
                    n
                };
                if nm == counter.to_string() {
                    counter += 1;
                }
                let k = t.slots() as u32;
                env.insert(nm, (nslots, t));
                nslots += k;
                if !p.eat(',') {
                    break;
                }
            }
        }
        p.expect(')');
        let nparams = nslots;
        // skip to '{' at line end
        p.skip_line();
        let body_start = p.lx.i;
        let body = &src[body_start..];

        // pass 1: result types.  We need types of all locals before decoding phis that refer
        // forward; compute them while scanning every "  %x = ..." line.
        self.pass1(body, &mut env, &mut nslots);

        // pass 2
        let mut f = Func {
            name: name.to_string(),
            nparams,
            nslots,
            frame_size: 0,
            code: vec![],
            edges: vec![],
            interesting: name.contains("9dynparser") || name.contains("5idata"),
        };
        let mut p = P::new(body);
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut cur_label = counter.to_string();
        let mut at_start = true;
        // phi info: block label -> Vec<(dst slots, Vec<(pred label, Flat)>)>
        let mut phis: HashMap<String, Vec<(u32, Vec<(String, Flat)>)>> = HashMap::new();
        // edges recorded as (from label, to label)
        let mut edges: Vec<(String, String)> = vec![];
        loop {
            match &p.cur {
                Tok::Nl => {
                    p.adv();
                    continue;
                }
                Tok::Eof => break,
                Tok::P('}') => break,
                Tok::Label(l) => {
                    cur_label = l.clone();
                    labels.insert(cur_label.clone(), f.code.len() as u32);
                    at_start = false;
                    p.adv();
                    continue;
                }
                _ => {}
            }
            if at_start {
                labels.insert(cur_label.clone(), 0);
                at_start = false;
            }
            self.parse_ins(&mut p, &mut f, &env, &cur_label, &mut phis, &mut edges);
            p.skip_line();
        }
        // resolve edges
        for (from, to) in edges {
            let mut copies = vec![];
            if let Some(ph) = phis.get(&to) {
                for (dst, inc) in ph {
                    let (_, v) = inc.iter().find(|(l, _)| *l == from).unwrap_or_else(|| {
                        panic!("phi without edge {} -> {} in {}", from, to, name)
                    });
                    for (i, o) in v.iter().enumerate() {
                        copies.push((dst + i as u32, *o));
                    }
                }
            }
            let mut overlap = false;
            for i in 0..copies.len() {
                for j in i + 1..copies.len() {
                    if copies[j].1 == Opd::S(copies[i].0) {
                        overlap = true;
                    }
                }
            }
            let target = *labels
                .get(&to)
                .unwrap_or_else(|| panic!("label {} in {}", to, name));
            f.edges.push(Edge {
                target,
                copies: copies.into_boxed_slice(),
                overlap,
            });
        }
        f
    }

    fn pass1(&mut self, body: &'a str, env: &mut HashMap<String, (u32, Ty)>, nslots: &mut u32) {
        // value lines start with "  %"
        let b = body.as_bytes();
        let mut i = 0;
        // some instructions need operand types (extractvalue etc. state their type explicitly)
        while i < b.len() {
            let e = memnl(b, i);
            let line = &body[i..e];
            if line.starts_with("  %") {
                let mut p = P::new(line);
                let nm = match p.adv() {
                    Tok::Local(n) => n,
                    _ => unreachable!(),
                };
                p.expect('=');
                let t = self.result_ty(&mut p);
                let k = t.slots() as u32;
                env.insert(nm, (*nslots, t));
                *nslots += k;
            }
            i = e + 1;
        }
    }

    fn skip_flags(&mut self, p: &mut P<'a>) {
        while let Tok::Word(w) = &p.cur {
            match *w {
                "nuw" | "nsw" | "exact" | "inbounds" | "disjoint" | "nneg" | "samesign"
                | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp"
                | "contract" | "afn" | "reassoc" | "nusw" | "inalloca" | "weak" => {
                    p.adv();
                }
                "inrange" => {
                    p.adv();
                    if p.is('(') {
                        p.skip_parens();
                    }
                }
                _ => break,
            }
        }
    }

    fn result_ty(&mut self, p: &mut P<'a>) -> Ty {
        let mut op = match p.adv() {
            Tok::Word(w) => w,
            t => panic!("opcode? {:?}", t),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match p.adv() {
                Tok::Word(w) => w,
                _ => panic!(),
            };
        }
        self.skip_flags(p);
        match op {
            "icmp" | "fcmp" => {
                p.adv(); // predicate (after flags)
                let t = self.ty(p);
                match t {
                    Ty::Vector(n, _) => Ty::Vector(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "alloca" => Ty::Ptr,
            "getelementptr" => {
                let _ = self.ty(p);
                Ty::Ptr
            }
            "load" => self.ty(p),
            "call" | "invoke" => {
                // cconv / attrs then type
                self.ret_ty(p)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui"
            | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast"
            | "ptrtoaddr" => {
                // "T v to T2"  : find the last " to "
                let mut last = None;
                while !matches!(p.cur, Tok::Eof | Tok::Nl) {
                    if p.word("to") {
                        p.adv();
                        last = Some(self.ty(p));
                    } else {
                        p.adv();
                    }
                }
                last.unwrap()
            }
            "select" => {
                let _c = self.ty(p);
                // skip operand until ',' at depth 0
                self.skip_operand(p);
                p.expect(',');
                self.ty(p)
            }
            "extractvalue" => {
                let t = self.ty(p);
                self.skip_operand(p);
                let mut idx = vec![];
                while p.is(',') {
                    if matches!(p.peek(), Tok::Meta) {
                        break;
                    }
                    p.adv();
                    idx.push(self.num(p) as u64);
                }
                t.slot_of(&idx).1
            }
            "extractelement" => match self.ty(p) {
                Ty::Vector(_, t) => *t,
                _ => panic!(),
            },
            "shufflevector" => {
                let t = match self.ty(p) {
                    Ty::Vector(_, t) => t,
                    _ => panic!(),
                };
                self.skip_operand(p);
                p.expect(',');
                self.ty(p);
                self.skip_operand(p);
                p.expect(',');
                match self.ty(p) {
                    Ty::Vector(n, _) => Ty::Vector(n, t),
                    _ => panic!(),
                }
            }
            "atomicrmw" => {
                p.adv(); // op
                self.ty(p);
                self.skip_operand(p);
                p.expect(',');
                self.ty(p)
            }
            "cmpxchg" => {
                self.ty(p);
                self.skip_operand(p);
                p.expect(',');
                let t = self.ty(p);
                Ty::Struct(vec![t, Ty::Int(1)], false)
            }
            // phi, binary ops, insertvalue, insertelement, freeze, landingpad, fneg
            _ => self.ty(p),
        }
    }

    fn skip_operand(&mut self, p: &mut P<'a>) {
        let mut d = 0i32;
        loop {
            match &p.cur {
                Tok::P('(') | Tok::P('{') | Tok::P('[') | Tok::P('<') => d += 1,
                Tok::P(')') | Tok::P('}') | Tok::P(']') | Tok::P('>') => d -= 1,
                Tok::P(',') if d == 0 => return,
                Tok::Nl | Tok::Eof => return,
                _ => {}
            }
            p.adv();
        }
    }

    fn ret_ty(&mut self, p: &mut P<'a>) -> Ty {
        // calling convention and return attributes
        loop {
            match &p.cur {
                Tok::Word(w) => {
                    let w = *w;
                    let is_ty = matches!(
                        w,
                        "void"
                            | "ptr"
                            | "float"
                            | "double"
                            | "half"
                            | "fp128"
                            | "token"
                            | "metadata"
                    ) || (w.starts_with('i')
                        && w.len() > 1
                        && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        break;
                    }
                    p.adv();
                    if w == "align" && matches!(p.cur, Tok::Num(_)) {
                        p.adv();
                    }
                    if p.is('(') {
                        p.skip_parens();
                    }
                }
                _ => break,
            }
        }
        let t = self.ty(p);
        if p.is('(') {
            // varargs function type
            p.skip_parens();
        }
        t
    }

    fn parse_ins(
        &mut self,
        p: &mut P<'a>,
        f: &mut Func,
        env: &HashMap<String, (u32, Ty)>,
        cur: &str,
        phis: &mut HashMap<String, Vec<(u32, Vec<(String, Flat)>)>>,
        edges: &mut Vec<(String, String)>,
    ) {
        let mut dst = 0u32;
        let mut dty = Ty::Void;
        if let Tok::Local(n) = &p.cur {
            let (s, t) = env[n].clone();
            dst = s;
            dty = t;
            p.adv();
            p.expect('=');
        }
        let mut op = match p.adv() {
            Tok::Word(w) => w,
            t => panic!("opcode? {:?} near {}", t, p.near()),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match p.adv() {
                Tok::Word(w) => w,
                _ => panic!(),
            };
        }
        if op != "call" && op != "invoke" {
            self.skip_flags(p);
        }
        let binop = |s: &str| {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = binop(op) {
            let t = self.ty(p);
            let a = self.operand(p, &t, env);
            p.expect(',');
            let c = self.operand(p, &t, env);
            let mut ws = vec![];
            t.widths(&mut ws);
            if let Ty::Int(w) = t {
                if w > 64 {
                    match b {
                        Bin::And | Bin::Or | Bin::Xor => {}
                        _ => {
                            // handled as a wide op
                            let mut args = vec![Opd::C(w as u64), Opd::C(b as u64)];
                            args.extend(a);
                            args.extend(c);
                            f.code.push(Ins::Ext {
                                k: Ext::RetZero,
                                name: "wide-bin".into(),
                                dst,
                                ndst: ws.len() as u32,
                                args: args.into_boxed_slice(),
                            });
                            return;
                        }
                    }
                }
            }
            for i in 0..a.len() {
                f.code.push(Ins::Bin {
                    op: b,
                    w: ws[i],
                    dst: dst + i as u32,
                    a: a[i],
                    b: c[i],
                });
            }
            return;
        }
        match op {
            "icmp" => {
                let pr = match p.adv() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", w),
                    },
                    _ => panic!(),
                };
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                p.expect(',');
                let c = self.operand(p, &t, env);
                let mut ws = vec![];
                t.widths(&mut ws);
                if let Ty::Int(w) = t {
                    if w > 64 {
                        let mut args = vec![Opd::C(w as u64), Opd::C(pr as u64)];
                        args.extend(a);
                        args.extend(c);
                        f.code.push(Ins::Ext {
                            k: Ext::RetZero,
                            name: "wide-icmp".into(),
                            dst,
                            ndst: 1,
                            args: args.into_boxed_slice(),
                        });
                        return;
                    }
                }
                for i in 0..a.len() {
                    f.code.push(Ins::Icmp {
                        p: pr,
                        w: ws[i],
                        dst: dst + i as u32,
                        a: a[i],
                        b: c[i],
                    });
                }
            }
            "select" => {
                let ct = self.ty(p);
                let c = self.operand(p, &ct, env);
                p.expect(',');
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                p.expect(',');
                let t2 = self.ty(p);
                let b = self.operand(p, &t2, env);
                let mut ws = vec![];
                t.widths(&mut ws);
                if c.len() == 1 {
                    f.code.push(Ins::Select {
                        dst,
                        c: c[0],
                        ws: ws.into(),
                        a: a.into_boxed_slice(),
                        b: b.into_boxed_slice(),
                    });
                } else {
                    for i in 0..c.len() {
                        f.code.push(Ins::Select {
                            dst: dst + i as u32,
                            c: c[i],
                            ws: vec![ws[i]].into(),
                            a: vec![a[i]].into(),
                            b: vec![b[i]].into(),
                        });
                    }
                }
            }
            "trunc" | "zext" | "sext" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                assert!(p.eat_word("to"));
                let t2 = self.ty(p);
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    _ => Cast::SExt,
                };
                let (mut fw, mut tw) = (vec![], vec![]);
                t.widths(&mut fw);
                t2.widths(&mut tw);
                let wide = |t: &Ty| matches!(t, Ty::Int(w) if *w > 64);
                if wide(&t) || wide(&t2) {
                    match (k, wide(&t), wide(&t2)) {
                        (Cast::Trunc, true, false) => f.code.push(Ins::Cast {
                            k: Cast::Trunc,
                            fw: 64,
                            tw: tw[0],
                            dst,
                            a: a[0],
                        }),
                        (Cast::ZExt, false, true) => {
                            f.code.push(Ins::Cast {
                                k,
                                fw: fw[0],
                                tw: 64,
                                dst,
                                a: a[0],
                            });
                            let src = vec![Opd::C(0); tw.len() - 1];
                            f.code.push(Ins::Copy {
                                dst: dst + 1,
                                src: src.into(),
                            });
                        }
                        (Cast::SExt, false, true) if tw.len() == 2 && tw[1] == 64 => {
                            f.code.push(Ins::Cast {
                                k,
                                fw: fw[0],
                                tw: 64,
                                dst,
                                a: a[0],
                            });
                            f.code.push(Ins::Bin {
                                op: Bin::AShr,
                                w: 64,
                                dst: dst + 1,
                                a: Opd::S(dst),
                                b: Opd::C(63),
                            });
                        }
                        (Cast::ZExt, true, true) if tw.len() == 2 => {
                            f.code.push(Ins::Copy {
                                dst,
                                src: a.clone().into(),
                            });
                        }
                        _ => f.code.push(Ins::BadOp(format!("wide {}", op).into())),
                    }
                    return;
                }
                for i in 0..a.len() {
                    if fw[i] == tw[i] {
                        f.code.push(Ins::Copy {
                            dst: dst + i as u32,
                            src: vec![a[i]].into(),
                        });
                    } else {
                        f.code.push(Ins::Cast {
                            k,
                            fw: fw[i],
                            tw: tw[i],
                            dst: dst + i as u32,
                            a: a[i],
                        });
                    }
                }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                assert!(p.eat_word("to"));
                let t2 = self.ty(p);
                let w1 = (t.size() * 8) as u32;
                let w2 = (t2.size() * 8) as u32;
                if w1 == w2 {
                    f.code.push(Ins::Copy { dst, src: a.into() });
                } else {
                    let k = if w2 < w1 { Cast::Trunc } else { Cast::ZExt };
                    f.code.push(Ins::Cast {
                        k,
                        fw: w1,
                        tw: w2,
                        dst,
                        a: a[0],
                    });
                }
            }
            "bitcast" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                assert!(p.eat_word("to"));
                let t2 = self.ty(p);
                let (mut sw, mut dw) = (vec![], vec![]);
                t.widths(&mut sw);
                t2.widths(&mut dw);
                if sw == dw {
                    f.code.push(Ins::Copy { dst, src: a.into() });
                } else {
                    f.code.push(Ins::Bitcast {
                        dst,
                        dws: dw.into(),
                        src: a.into(),
                        sws: sw.into(),
                    });
                }
            }
            "freeze" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                f.code.push(Ins::Copy { dst, src: a.into() });
            }
            "alloca" => {
                let t = self.ty(p);
                let mut n = 1u64;
                let mut align = t.align().max(1);
                while p.is(',') {
                    if matches!(p.peek(), Tok::Meta) {
                        break;
                    }
                    p.adv();
                    if p.eat_word("align") {
                        align = self.num(p) as u64;
                    } else {
                        let it = self.ty(p);
                        match self.operand(p, &it, env)[0] {
                            Opd::C(c) => n = c,
                            _ => {
                                f.code.push(Ins::BadOp("dynamic alloca".into()));
                                return;
                            }
                        }
                    }
                }
                let off = (f.frame_size as u64 + align - 1) / align * align;
                f.frame_size = (off + (t.size() * n).max(1)) as u32;
                f.code.push(Ins::Alloca {
                    dst,
                    off: off as u32,
                });
            }
            "load" => {
                let t = self.ty(p);
                p.expect(',');
                let pt = self.ty(p);
                let a = self.operand(p, &pt, env)[0];
                let mut sc = vec![];
                if let Some(bits) = packed_bits(&t) {
                    let mut ws = vec![];
                    t.widths(&mut ws);
                    f.code.push(Ins::Load { dst, w: bits, p: a });
                    f.code.push(Ins::Bitcast {
                        dst,
                        dws: ws.into(),
                        src: vec![Opd::S(dst)].into(),
                        sws: vec![bits].into(),
                    });
                    return;
                }
                t.scalars(0, &mut sc);
                if sc.len() == 1 {
                    f.code.push(Ins::Load {
                        dst,
                        w: sc[0].1,
                        p: a,
                    });
                } else {
                    f.code.push(Ins::LoadN {
                        dst,
                        parts: sc.into(),
                        p: a,
                    });
                }
            }
            "store" => {
                let t = self.ty(p);
                let v = self.operand(p, &t, env);
                p.expect(',');
                let pt = self.ty(p);
                let a = self.operand(p, &pt, env)[0];
                let mut sc = vec![];
                if let Some(bits) = packed_bits(&t) {
                    let mut ws = vec![];
                    t.widths(&mut ws);
                    let tmp = f.nslots;
                    f.nslots += 1;
                    f.code.push(Ins::Bitcast {
                        dst: tmp,
                        dws: vec![bits].into(),
                        src: v.into(),
                        sws: ws.into(),
                    });
                    f.code.push(Ins::Store {
                        w: bits,
                        v: Opd::S(tmp),
                        p: a,
                    });
                    return;
                }
                t.scalars(0, &mut sc);
                if sc.len() == 1 {
                    f.code.push(Ins::Store {
                        w: sc[0].1,
                        v: v[0],
                        p: a,
                    });
                } else {
                    f.code.push(Ins::StoreN {
                        parts: sc.into(),
                        v: v.into(),
                        p: a,
                    });
                }
            }
            "getelementptr" => {
                let (base, off, terms) = self.gep_body(p, env);
                f.code.push(Ins::Gep {
                    dst,
                    base,
                    off,
                    terms: terms.into(),
                });
            }
            "extractvalue" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                let mut idx = vec![];
                while p.is(',') {
                    if matches!(p.peek(), Tok::Meta) {
                        break;
                    }
                    p.adv();
                    idx.push(self.num(p) as u64);
                }
                let (o, et) = t.slot_of(&idx);
                let src: Vec<Opd> = a[o..o + et.slots()].to_vec();
                f.code.push(Ins::Copy {
                    dst,
                    src: src.into(),
                });
            }
            "insertvalue" => {
                let t = self.ty(p);
                let mut a = self.operand(p, &t, env);
                p.expect(',');
                let vt = self.ty(p);
                let v = self.operand(p, &vt, env);
                let mut idx = vec![];
                while p.is(',') {
                    if matches!(p.peek(), Tok::Meta) {
                        break;
                    }
                    p.adv();
                    idx.push(self.num(p) as u64);
                }
                let (o, _) = t.slot_of(&idx);
                a[o..o + v.len()].copy_from_slice(&v);
                f.code.push(Ins::Copy { dst, src: a.into() });
            }
            "extractelement" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                p.expect(',');
                let it = self.ty(p);
                let i = self.operand(p, &it, env)[0];
                let (n, es) = match &t {
                    Ty::Vector(n, e) => (*n as u32, e.slots() as u32),
                    _ => panic!(),
                };
                match i {
                    Opd::C(c) => {
                        let s = c as usize * es as usize;
                        f.code.push(Ins::Copy {
                            dst,
                            src: a[s..s + es as usize].to_vec().into(),
                        });
                    }
                    i => f.code.push(Ins::ExtractElemDyn {
                        dst,
                        es,
                        n,
                        src: a.into(),
                        idx: i,
                    }),
                }
            }
            "insertelement" => {
                let t = self.ty(p);
                let mut a = self.operand(p, &t, env);
                p.expect(',');
                let vt = self.ty(p);
                let v = self.operand(p, &vt, env);
                p.expect(',');
                let it = self.ty(p);
                let i = self.operand(p, &it, env)[0];
                let (n, es) = match &t {
                    Ty::Vector(n, e) => (*n as u32, e.slots() as u32),
                    _ => panic!(),
                };
                match i {
                    Opd::C(c) => {
                        let s = c as usize * es as usize;
                        a[s..s + v.len()].copy_from_slice(&v);
                        f.code.push(Ins::Copy { dst, src: a.into() });
                    }
                    i => f.code.push(Ins::InsertElemDyn {
                        dst,
                        es,
                        n,
                        src: a.into(),
                        v: v.into(),
                        idx: i,
                    }),
                }
            }
            "shufflevector" => {
                let t = self.ty(p);
                let a = self.operand(p, &t, env);
                p.expect(',');
                let t2 = self.ty(p);
                let b = self.operand(p, &t2, env);
                p.expect(',');
                let mt = self.ty(p);
                let m = self.operand(p, &mt, env);
                let (n, es) = match &t {
                    Ty::Vector(n, e) => (*n as usize, e.slots()),
                    _ => panic!(),
                };
                let mut src = vec![];
                for x in m {
                    let k = match x {
                        Opd::C(c) => c as usize,
                        _ => panic!(),
                    };
                    for j in 0..es {
                        if k < n {
                            src.push(a[k * es + j]);
                        } else {
                            src.push(b[(k - n) * es + j]);
                        }
                    }
                }
                f.code.push(Ins::Copy {
                    dst,
                    src: src.into(),
                });
            }
            "phi" => {
                let t = self.ty(p);
                let mut inc = vec![];
                loop {
                    p.expect('[');
                    let v = self.operand(p, &t, env);
                    p.expect(',');
                    let l = match p.adv() {
                        Tok::Local(l) => l,
                        t => panic!("phi label {:?}", t),
                    };
                    p.expect(']');
                    inc.push((l, v));
                    if p.is(',') && !matches!(p.peek(), Tok::Meta) {
                        p.adv();
                    } else {
                        break;
                    }
                }
                phis.entry(cur.to_string()).or_default().push((dst, inc));
            }
            "br" => {
                if p.eat_word("label") {
                    let l = self.label(p);
                    edges.push((cur.to_string(), l));
                    f.code.push(Ins::Br(edges.len() as u32 - 1));
                } else {
                    let t = self.ty(p);
                    let c = self.operand(p, &t, env)[0];
                    p.expect(',');
                    assert!(p.eat_word("label"));
                    let l1 = self.label(p);
                    p.expect(',');
                    assert!(p.eat_word("label"));
                    let l2 = self.label(p);
                    edges.push((cur.to_string(), l1));
                    edges.push((cur.to_string(), l2));
                    let n = edges.len() as u32;
                    f.code.push(Ins::CondBr {
                        c,
                        t: n - 2,
                        f: n - 1,
                    });
                }
            }
            "switch" => {
                let t = self.ty(p);
                let w = match t {
                    Ty::Int(w) => w,
                    _ => panic!(),
                };
                let v = self.operand(p, &t, env)[0];
                p.expect(',');
                assert!(p.eat_word("label"));
                let d = self.label(p);
                edges.push((cur.to_string(), d));
                let def = edges.len() as u32 - 1;
                p.expect('[');
                let mut cases = vec![];
                loop {
                    while matches!(p.cur, Tok::Nl) {
                        p.adv();
                    }
                    if p.eat(']') {
                        break;
                    }
                    let ct = self.ty(p);
                    let c = match self.constant(p, &ct)[0] {
                        Opd::C(c) => c,
                        _ => panic!(),
                    };
                    p.expect(',');
                    assert!(p.eat_word("label"));
                    let l = self.label(p);
                    edges.push((cur.to_string(), l));
                    cases.push((c, edges.len() as u32 - 1));
                }
                f.code.push(Ins::Switch {
                    w,
                    v,
                    cases: cases.into(),
                    def,
                });
            }
            "ret" => {
                let t = self.ty(p);
                let v = if t == Ty::Void {
                    vec![]
                } else {
                    self.operand(p, &t, env)
                };
                f.code.push(Ins::Ret { v: v.into() });
            }
            "unreachable" => f.code.push(Ins::Unreachable),
            "resume" => f.code.push(Ins::BadOp("resume".into())),
            "landingpad" => {
                f.code.push(Ins::BadOp("landingpad".into()));
                // clause lines: they start with cleanup / catch / filter
                p.skip_line();
                loop {
                    // look at the next line
                    if let Tok::Word(w) = p.peek() {
                        if matches!(*w, "cleanup" | "catch" | "filter") {
                            p.adv();
                            p.skip_line();
                            continue;
                        }
                    }
                    break;
                }
            }
            "fence" => {}
            "call" | "invoke" => {
                let rt = self.ret_ty(p);
                let nd = rt.slots() as u32;
                if rt != Ty::Void {
                    assert_eq!(
                        nd as usize,
                        dty.slots()
                            .max(if dty == Ty::Void { nd as usize } else { 0 })
                    );
                }
                // callee
                let callee = p.adv();
                let (mut direct, mut ind) = (None, None);
                match callee {
                    Tok::Global(g) => direct = Some(g),
                    Tok::Local(l) => ind = Some(Opd::S(env[&l].0)),
                    Tok::Word("asm") => {
                        f.code.push(Ins::Copy {
                            dst,
                            src: vec![Opd::C(0); nd as usize].into(),
                        });
                        if op == "call" {
                            return;
                        }
                    }
                    t => {
                        // constant expression callee
                        f.code.push(Ins::BadOp(format!("callee {:?}", t).into()));
                        return;
                    }
                }
                let mut args: Vec<Opd> = vec![];
                let mut aw = vec![];
                if direct.is_some() || ind.is_some() {
                    p.expect('(');
                    if !p.is(')') {
                        loop {
                            let t = self.ty(p);
                            if t == Ty::Metadata {
                                // skip metadata operand
                                let mut d = 0;
                                loop {
                                    match &p.cur {
                                        Tok::P('(') | Tok::P('{') => d += 1,
                                        Tok::P(')') | Tok::P('}') if d > 0 => d -= 1,
                                        Tok::P(')') | Tok::P(',') if d == 0 => break,
                                        _ => {}
                                    }
                                    p.adv();
                                }
                            } else {
                                self.skip_attrs(p);
                                let v = self.operand(p, &t, env);
                                t.widths(&mut aw);
                                args.extend(v);
                            }
                            if !p.eat(',') {
                                break;
                            }
                        }
                    }
                    p.expect(')');
                }
                if let Some(g) = direct {
                    if g.starts_with("llvm.") {
                        match intr_of(&g) {
                            Some(Intr::Nop) => {
                                if nd > 0 {
                                    f.code.push(Ins::Copy {
                                        dst,
                                        src: vec![Opd::C(0); nd as usize].into(),
                                    });
                                }
                            }
                            Some(k) => {
                                let w = aw.first().copied().unwrap_or(0);
                                // vectorised lanes: expand unary/binary min/max etc.
                                let lanes = nd as usize;
                                let elementwise = matches!(
                                    k,
                                    Intr::Umin
                                        | Intr::Umax
                                        | Intr::Smin
                                        | Intr::Smax
                                        | Intr::Ctpop
                                        | Intr::Bswap
                                        | Intr::UaddSat
                                        | Intr::UsubSat
                                        | Intr::Fshl
                                        | Intr::Fshr
                                ) && lanes > 1;
                                if elementwise {
                                    let na = args.len() / lanes;
                                    for i in 0..lanes {
                                        let a: Vec<Opd> =
                                            (0..na).map(|j| args[j * lanes + i]).collect();
                                        f.code.push(Ins::Intr {
                                            k,
                                            dst: dst + i as u32,
                                            w,
                                            args: a.into(),
                                        });
                                    }
                                } else {
                                    if w > 64 {
                                        f.code.push(Ins::BadOp(format!("wide {}", g).into()));
                                    }
                                    f.code.push(Ins::Intr {
                                        k,
                                        dst,
                                        w,
                                        args: args.into(),
                                    });
                                }
                            }
                            None => f.code.push(Ins::BadOp(format!("intrinsic {}", g).into())),
                        }
                    } else {
                        let fi = self.func_id(&g);
                        match self.prog.func_ext[fi as usize] {
                            Some(k) => f.code.push(Ins::Ext {
                                k,
                                name: g.into(),
                                dst,
                                ndst: nd,
                                args: args.into(),
                            }),
                            None => f.code.push(Ins::Call {
                                f: fi,
                                dst,
                                ndst: nd,
                                args: args.into(),
                            }),
                        }
                        // DebugChar / DebugStr hooks fall back to the real call
                        if matches!(
                            self.prog.func_ext[fi as usize],
                            Some(Ext::DebugChar) | Some(Ext::DebugStr) | Some(Ext::HashOne)
                        ) {
                            let last = f.code.pop().unwrap();
                            if let Ins::Ext {
                                dst, ndst, args, ..
                            } = last
                            {
                                f.code.push(Ins::Call {
                                    f: fi,
                                    dst,
                                    ndst,
                                    args,
                                });
                            }
                        }
                    }
                } else if let Some(i) = ind {
                    f.code.push(Ins::CallInd {
                        p: i,
                        dst,
                        ndst: nd,
                        args: args.into(),
                    });
                }
                if op == "invoke" {
                    // "to label %x unwind label %y" maybe on the next line
                    while !p.word("to") || !matches!(p.peek(), Tok::Word("label")) {
                        if p.cur == Tok::Eof {
                            panic!("invoke");
                        }
                        p.adv();
                    }
                    p.adv();
                    p.adv();
                    let l = self.label(p);
                    edges.push((cur.to_string(), l));
                    f.code.push(Ins::Br(edges.len() as u32 - 1));
                }
            }
            "atomicrmw" => {
                let o = match p.adv() {
                    Tok::Word(w) => match w {
                        "xchg" => 0u8,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "umax" => 6,
                        "umin" => 7,
                        _ => 99,
                    },
                    _ => panic!(),
                };
                let pt = self.ty(p);
                let a = self.operand(p, &pt, env)[0];
                p.expect(',');
                let t = self.ty(p);
                let v = self.operand(p, &t, env)[0];
                f.code.push(Ins::AtomicRmw {
                    op: o,
                    w: (t.size() * 8) as u32,
                    dst,
                    p: a,
                    v,
                });
            }
            "cmpxchg" => {
                let pt = self.ty(p);
                let a = self.operand(p, &pt, env)[0];
                p.expect(',');
                let t = self.ty(p);
                let c = self.operand(p, &t, env)[0];
                p.expect(',');
                let t = self.ty(p);
                let n = self.operand(p, &t, env)[0];
                f.code.push(Ins::CmpXchg {
                    w: (t.size() * 8) as u32,
                    dst,
                    p: a,
                    c,
                    n,
                });
            }
            other => f
                .code
                .push(Ins::BadOp(format!("instruction {}", other).into())),
        }
    }

    fn label(&mut self, p: &mut P<'a>) -> String {
        match p.adv() {
            Tok::Local(l) => l,
            t => panic!("label expected, got {:?}", t),
        }
    }
}

/// total bits of a vector whose elements are not whole bytes
fn packed_bits(t: &Ty) -> Option<u32> {
    if let Ty::Vector(n, e) = t {
        if let Ty::Int(w) = **e {
            if w % 8 != 0 && *n * (w as u64) <= 64 {
                return Some((*n * w as u64) as u32);
            }
        }
    }
    None
}

fn memnl(b: &[u8], i: usize) -> usize {
    if i >= b.len() {
        return b.len();
    }
    match b[i..].iter().position(|&c| c == b'\n') {
        Some(p) => i + p,
        None => b.len(),
    }
}

fn sym_name(s: &str) -> &str {
    if let Some(r) = s.strip_prefix('"') {
        &r[..r.find('"').unwrap()]
    } else {
        let e = s.bytes().position(|c| !is_name(c)).unwrap_or(s.len());
        &s[..e]
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

#[inline(always)]
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Readable form of a v0-mangled name: the identifiers, joined.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if len > 0 && s + len <= b.len() {
                let id = &n[s..s + len];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(id.to_string());
                }
                i = s + len;
            }
        } else {
            // skip crate disambiguators "Cs<base62>_"
            if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
                while i < b.len() && b[i] != b'_' {
                    i += 1;
                }
            }
            if b[i] == b'B' {
                // backreference B<base62>_
                while i < b.len() && b[i] != b'_' {
                    i += 1;
                }
            }
            i += 1;
        }
    }
    out.join("::")
}
