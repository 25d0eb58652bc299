//! Hash-consed bit-vector expressions (width 1..=64) with local simplification.

use crate::ir::{mask, sext, Bin, Pred};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not, // w = 1 only
    Eq,
    Ult,
    Slt,
    Ite,
    SExt,
    Extract, // k = lo
    Concat,  // a = high part, b = low part
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub const NVW: usize = 4;
pub type Sup = [u64; NVW];

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub umin: u64,
    pub umax: u64,
    pub hash: u64,
    pub sup: Sup,
}

/// A run-time value: `e == 0` means the concrete value `c`.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub e: u32,
    pub c: u64,
}

impl V {
    #[inline(always)]
    pub fn c(c: u64) -> V {
        V { e: 0, c }
    }
    #[inline(always)]
    pub fn is_c(&self) -> bool {
        self.e == 0
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, u32, Fx>,
    eval_cache: Vec<(u32, u64)>,
    eval_gen: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}

fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 29)
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            meta: vec![],
            map: HashMap::with_hasher(Fx),
            eval_cache: vec![],
            eval_gen: 0,
        };
        // id 0 is reserved for "concrete"
        a.nodes.push(Node {
            op: Op::Const,
            w: 0,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
        });
        a.meta.push(Meta {
            umin: 0,
            umax: 0,
            hash: 0,
            sup: [0; NVW],
        });
        a
    }

    pub fn w(&self, e: u32) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    fn n(&self, e: u32) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    fn m(&self, e: u32) -> &Meta {
        &self.meta[e as usize]
    }
    fn is_const(&self, e: u32) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    /// get (or create) the i-th variable
    pub fn var(&mut self, idx: usize, w: u32, lo: u64, hi: u64) -> u32 {
        assert!(idx < 64 * NVW, "too many symbolic variables");
        // the variable identity includes its domain
        let node = Node {
            op: Op::Var,
            w: w as u8,
            a: (hi & 0xffff_ffff) as u32,
            b: (hi >> 32) as u32,
            c: idx as u32,
            k: lo,
        };
        self.intern(node)
    }

    fn intern(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as u32;
        let m = self.compute_meta(&n);
        self.nodes.push(n);
        self.meta.push(m);
        self.map.insert(n, id);
        id
    }

    fn compute_meta(&self, n: &Node) -> Meta {
        let mk = mask(n.w as u32);
        let (mut lo, mut hi) = (0u64, mk);
        let mut sup = [0u64; NVW];
        let mut hash = mix(n.op as u64 + 1, n.w as u64);
        hash = mix(hash, n.k);
        if n.op == Op::Var {
            sup[n.c as usize / 64] |= 1 << (n.c % 64);
            hash = mix(mix(mix(hash, n.a as u64), n.b as u64), n.c as u64);
            lo = n.k;
            hi = n.a as u64 | ((n.b as u64) << 32);
        } else {
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    let m = self.m(x);
                    for i in 0..NVW {
                        sup[i] |= m.sup[i];
                    }
                    hash = mix(hash, m.hash);
                }
            }
            let a = if n.a != 0 { *self.m(n.a) } else { self.meta[0] };
            let b = if n.b != 0 { *self.m(n.b) } else { self.meta[0] };
            match n.op {
                Op::Const => {
                    lo = n.k;
                    hi = n.k;
                }
                Op::Add => {
                    if let (Some(l), Some(h)) =
                        (a.umin.checked_add(b.umin), a.umax.checked_add(b.umax))
                    {
                        if h <= mk {
                            lo = l;
                            hi = h;
                        } else if l > mk {
                            lo = l & mk;
                            hi = h & mk;
                            if lo > hi {
                                lo = 0;
                                hi = mk;
                            }
                        } else if self.is_const(n.b).is_some() {
                            // x - k where it may wrap: unknown
                        }
                    } else if n.w == 64 {
                        // x + (2^64 - k) with x >= k
                        if a.umin.checked_add(b.umin).is_none() {
                            lo = a.umin.wrapping_add(b.umin);
                            hi = a.umax.wrapping_add(b.umax);
                            if lo > hi {
                                lo = 0;
                                hi = mk;
                            }
                        }
                    }
                }
                Op::Mul => {
                    if let Some(h) = a.umax.checked_mul(b.umax) {
                        if h <= mk {
                            lo = a.umin * b.umin;
                            hi = h;
                        }
                    }
                }
                Op::UDiv => {
                    if b.umin > 0 {
                        lo = a.umin / b.umax;
                        hi = a.umax / b.umin;
                    }
                }
                Op::URem => {
                    if b.umin > 0 {
                        hi = a.umax.min(b.umax - 1);
                    }
                }
                Op::And => hi = a.umax.min(b.umax),
                Op::Or => {
                    lo = a.umin.max(b.umin);
                    let t = a.umax | b.umax;
                    hi = if t == 0 {
                        0
                    } else {
                        mask(64 - t.leading_zeros())
                    };
                }
                Op::Xor => {
                    let t = a.umax | b.umax;
                    hi = if t == 0 {
                        0
                    } else {
                        mask(64 - t.leading_zeros())
                    };
                }
                Op::LShr => hi = a.umax,
                Op::Ite => {
                    let c = self.m(n.c);
                    lo = b.umin.min(c.umin);
                    hi = b.umax.max(c.umax);
                }
                Op::Extract => {
                    if n.k == 0 && a.umax <= mk {
                        lo = a.umin;
                        hi = a.umax;
                    } else if n.k as u32 + n.w as u32 == self.w(n.a) {
                        lo = a.umin >> n.k;
                        hi = a.umax >> n.k;
                    }
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    lo = (a.umin << bw) | b.umin;
                    hi = (a.umax << bw) | b.umax;
                }
                Op::SExt => {
                    let aw = self.w(n.a);
                    if a.umax < 1u64 << (aw - 1) {
                        lo = a.umin;
                        hi = a.umax;
                    }
                }
                _ => {}
            }
        }
        Meta {
            umin: lo,
            umax: hi.min(mk).max(lo),
            hash,
            sup,
        }
    }

    pub fn cst(&mut self, w: u32, v: u64) -> u32 {
        self.intern(Node {
            op: Op::Const,
            w: w as u8,
            a: 0,
            b: 0,
            c: 0,
            k: v & mask(w),
        })
    }
    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u64) -> u32 {
        let id = self.intern(Node {
            op,
            w: w as u8,
            a,
            b,
            c,
            k,
        });
        let m = self.m(id);
        if m.umin == m.umax && op != Op::Const {
            let v = m.umin;
            return self.cst(w, v);
        }
        id
    }

    /// operand -> node
    pub fn node(&mut self, v: V, w: u32) -> u32 {
        if v.e != 0 {
            debug_assert_eq!(self.w(v.e), w);
            v.e
        } else {
            self.cst(w, v.c)
        }
    }
    pub fn v(&self, e: u32) -> V {
        match self.is_const(e) {
            Some(c) => V::c(c),
            None => V { e, c: 0 },
        }
    }

    // ---------------------------------------------------------------- segments

    /// concat list, most significant first
    fn segs(&self, e: u32, out: &mut Vec<u32>) {
        let n = self.n(e);
        if n.op == Op::Concat {
            self.segs(n.a, out);
            self.segs(n.b, out);
        } else {
            out.push(e);
        }
    }
    fn from_segs(&mut self, s: &[u32]) -> u32 {
        let mut acc = *s.last().unwrap();
        for &x in s[..s.len() - 1].iter().rev() {
            acc = self.concat(x, acc);
        }
        acc
    }

    pub fn concat(&mut self, a: u32, b: u32) -> u32 {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32 + nb.w as u32;
        assert!(w <= 64);
        // right associate
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst(w, (na.k << nb.w) | nb.k);
        }
        // merge with the head of b
        let (h, t) = if nb.op == Op::Concat {
            (nb.a, nb.b)
        } else {
            (b, 0)
        };
        let nh = self.n(h);
        if na.op == Op::Const && nh.op == Op::Const {
            let m = self.cst(na.w as u32 + nh.w as u32, (na.k << nh.w) | nh.k);
            return if t == 0 { m } else { self.concat(m, t) };
        }
        // adjacent extracts of the same value
        let (sa, la) = if na.op == Op::Extract {
            (na.a, na.k as u32)
        } else {
            (a, 0)
        };
        let (sh, lh) = if nh.op == Op::Extract {
            (nh.a, nh.k as u32)
        } else {
            (h, 0)
        };
        if sa == sh && la == lh + nh.w as u32 {
            let m = self.extract(sa, lh, na.w as u32 + nh.w as u32);
            return if t == 0 { m } else { self.concat(m, t) };
        }
        self.raw(Op::Concat, w, a, b, 0, 0)
    }

    pub fn extract(&mut self, e: u32, lo: u32, w: u32) -> u32 {
        let n = self.n(e);
        let ew = n.w as u32;
        if lo == 0 && w == ew {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.logic(n.op, w, a, b);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let b = self.extract(n.b, lo, w);
                    let c = self.extract(n.c, lo, w);
                    return self.ite(n.a, b, c);
                }
            }
            Op::Add if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.add(w, a, b);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
            }
            _ => {}
        }
        let m = *self.m(e);
        // high part known to be zero
        if lo < 64 && (m.umax >> lo) == 0 {
            return self.cst(w, 0);
        }
        let need = 64 - m.umax.leading_zeros();
        if need > lo && need - lo < w {
            let low = self.raw(Op::Extract, need - lo, e, 0, 0, lo as u64);
            let z = self.cst(w - (need - lo), 0);
            return self.concat(z, low);
        }
        self.raw(Op::Extract, w, e, 0, 0, lo as u64)
    }

    pub fn zext(&mut self, e: u32, w: u32) -> u32 {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let z = self.cst(w - ew, 0);
        self.concat(z, e)
    }
    pub fn sxt(&mut self, e: u32, w: u32) -> u32 {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let n = self.n(e);
        if n.op == Op::Const {
            return self.cst(w, sext(n.k, ew) as u64);
        }
        if self.m(e).umax >> (ew - 1) == 0 {
            return self.zext(e, w);
        }
        // a choice between constants (three-way comparisons): widen the leaves
        if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
            let x = self.sxt(n.b, w);
            let y = self.sxt(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.raw(Op::SExt, w, e, 0, 0, 0)
    }

    fn order(&self, a: u32, b: u32) -> (u32, u32) {
        // constants to the right, otherwise by structural hash
        let (ca, cb) = (self.is_const(a).is_some(), self.is_const(b).is_some());
        if ca && !cb {
            return (b, a);
        }
        if !ca && cb {
            return (a, b);
        }
        if self.m(a).hash > self.m(b).hash {
            (b, a)
        } else {
            (a, b)
        }
    }

    pub fn add(&mut self, w: u32, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if nb.k == 0 {
                return a;
            }
            if na.op == Op::Const {
                return self.cst(w, na.k.wrapping_add(nb.k));
            }
            if na.op == Op::Add {
                if let Some(k) = self.is_const(na.b) {
                    let c = self.cst(w, k.wrapping_add(nb.k));
                    return self.add(w, na.a, c);
                }
            }
        }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    fn neg(&mut self, w: u32, a: u32) -> u32 {
        if let Some(k) = self.is_const(a) {
            return self.cst(w, k.wrapping_neg());
        }
        let m1 = self.cst(w, !0);
        let x = self.logic(Op::Xor, w, a, m1);
        let one = self.cst(w, 1);
        self.add(w, x, one)
    }
    fn mul(&mut self, w: u32, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if let Some(j) = self.is_const(a) {
                return self.cst(w, j.wrapping_mul(k));
            }
            if k.is_power_of_two() {
                let s = self.cst(w, k.trailing_zeros() as u64);
                return self.shl(w, a, s);
            }
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    fn shl(&mut self, w: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u64 {
                return self.cst(w, 0);
            }
            let l = self.extract(a, 0, w - k as u32);
            let z = self.cst(k as u32, 0);
            return self.concat(l, z);
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    fn lshr(&mut self, w: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u64 {
                return self.cst(w, 0);
            }
            let h = self.extract(a, k as u32, w - k as u32);
            return self.zext(h, w);
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    fn ashr(&mut self, w: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if self.m(a).umax >> (w - 1) == 0 {
                return self.lshr(w, a, b);
            }
            let k = (k as u32).min(w - 1);
            let h = self.extract(a, k, w - k);
            return self.sxt(h, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }

    pub fn not(&mut self, a: u32) -> u32 {
        let n = self.n(a);
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.cst(1, n.k ^ 1),
            Op::Not => n.a,
            _ => self.raw(Op::Not, 1, a, 0, 0, 0),
        }
    }

    pub fn logic(&mut self, op: Op, w: u32, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        if a == b {
            return match op {
                Op::Xor => self.cst(w, 0),
                _ => a,
            };
        }
        if nb.op == Op::Const {
            if na.op == Op::Const {
                let v = match op {
                    Op::And => na.k & nb.k,
                    Op::Or => na.k | nb.k,
                    _ => na.k ^ nb.k,
                };
                return self.cst(w, v);
            }
            let ones = mask(w);
            match op {
                Op::And => {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == ones {
                        return a;
                    }
                }
                Op::Or => {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k == ones {
                        return b;
                    }
                }
                _ => {
                    if nb.k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                }
            }
        }
        if w == 1 {
            // complement
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.cst(1, (op != Op::And) as u64);
            }
            return self.raw(op, w, a, b, 0, 0);
        }
        // constants: split into bit runs
        if nb.op == Op::Const && (op == Op::And || op == Op::Or) {
            let runs = runs(nb.k, w);
            if runs.len() <= 4 {
                let mut segs = vec![];
                for (bit, lo, len) in runs {
                    let keep = (op == Op::And) == bit;
                    let s = if keep {
                        self.extract(a, lo, len)
                    } else {
                        let v = if op == Op::And { 0 } else { mask(len) };
                        self.cst(len, v)
                    };
                    segs.push(s);
                }
                return self.from_segs(&segs);
            }
        }
        // both concatenations: merge segment-wise when every piece simplifies
        if na.op == Op::Concat || nb.op == Op::Concat {
            let (mut sa, mut sb) = (vec![], vec![]);
            self.segs(a, &mut sa);
            self.segs(b, &mut sb);
            // cut points
            let mut cuts = vec![0u32, w];
            for s in [&sa, &sb] {
                let mut p = w;
                for &x in s.iter() {
                    p -= self.w(x);
                    cuts.push(p);
                }
            }
            cuts.sort_unstable();
            cuts.dedup();
            let mut pieces = vec![];
            let mut ok = true;
            for i in (0..cuts.len() - 1).rev() {
                let (lo, len) = (cuts[i], cuts[i + 1] - cuts[i]);
                let x = self.extract(a, lo, len);
                let y = self.extract(b, lo, len);
                if self.is_const(x).is_none() && self.is_const(y).is_none() {
                    ok = false;
                    break;
                }
                pieces.push((x, y, len));
            }
            if ok {
                let mut segs = vec![];
                for (x, y, len) in pieces {
                    let r = self.logic(op, len, x, y);
                    segs.push(r);
                }
                return self.from_segs(&segs);
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_const(c) {
            return if k & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.logic(Op::Or, 1, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.logic(Op::And, 1, n, b);
                }
                (None, Some(0)) => return self.logic(Op::And, 1, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.logic(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        // ite(c, x, ite(c, ..))
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.cst(1, 1);
        }
        let (a, b) = self.order(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        let (ma, mb) = (*self.m(a), *self.m(b));
        if ma.umax < mb.umin || mb.umax < ma.umin {
            return self.cst(1, 0);
        }
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(1, (na.k == nb.k) as u64);
            }
            if w == 1 {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hc = self.cst(w - lw, nb.k >> lw);
                    let lc = self.cst(lw, nb.k);
                    let h = self.eq(na.a, hc);
                    if self.is_const(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(na.b, lc);
                    return self.logic(Op::And, 1, h, l);
                }
                Op::Add => {
                    if let Some(k) = self.is_const(na.b) {
                        let c = self.cst(w, nb.k.wrapping_sub(k));
                        return self.eq(na.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.is_const(na.b) {
                        let c = self.cst(w, nb.k ^ k);
                        return self.eq(na.a, c);
                    }
                }
                Op::SExt => {
                    let aw = self.w(na.a);
                    let low = nb.k & mask(aw);
                    if sext(low, aw) as u64 & mask(w) != nb.k {
                        return self.cst(1, 0);
                    }
                    let c = self.cst(aw, low);
                    return self.eq(na.a, c);
                }
                Op::Ite => {
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    if self.is_const(x).is_some() || self.is_const(y).is_some() {
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.logic(Op::Xor, 1, a, b);
                return self.not(x);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.logic(Op::And, 1, h, l);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }

    pub fn ult(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.cst(1, 0);
        }
        let (ma, mb) = (*self.m(a), *self.m(b));
        if ma.umax < mb.umin {
            return self.cst(1, 1);
        }
        if ma.umin >= mb.umax {
            return self.cst(1, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if w == 1 {
            let x = self.not(a);
            return self.logic(Op::And, 1, x, b);
        }
        // x < 1
        if self.is_const(b) == Some(1) {
            let z = self.cst(w, 0);
            return self.eq(a, z);
        }
        if self.is_const(a) == Some(mb.umax.wrapping_sub(1)) && mb.umax > 0 {
            let z = self.cst(w, mb.umax);
            return self.eq(b, z);
        }
        if self.is_const(a) == Some(0) {
            let z = self.cst(w, 0);
            let q = self.eq(b, z);
            return self.not(q);
        }
        // one side constant, the other a choice with a leaf that decides it
        if nb.op == Op::Const && na.op == Op::Ite {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            if self.is_const(x).is_some() || self.is_const(y).is_some() {
                return self.ite(na.a, x, y);
            }
        }
        if na.op == Op::Const && nb.op == Op::Ite {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            if self.is_const(x).is_some() || self.is_const(y).is_some() {
                return self.ite(nb.a, x, y);
            }
        }
        // common zero-extension
        let zh = |s: &Self, n: &Node, e: u32| -> u32 {
            if n.op == Op::Const {
                64 - n.k.leading_zeros()
            } else if n.op == Op::Concat && s.is_const(n.a) == Some(0) {
                s.w(n.b)
            } else {
                let _ = e;
                s.w(e)
            }
        };
        let (wa, wb) = (zh(self, &na, a), zh(self, &nb, b));
        let lw = wa.max(wb).max(1);
        if lw < w {
            let x = self.extract(a, 0, lw);
            let y = self.extract(b, 0, lw);
            return self.ult(x, y);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.cst(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(1, (sext(x, w) < sext(y, w)) as u64);
        }
        let half = 1u64 << (w - 1);
        let (ma, mb) = (*self.m(a), *self.m(b));
        let (na, nb) = (ma.umax < half, mb.umax < half);
        let (ga, gb) = (ma.umin >= half, mb.umin >= half);
        if (na && nb) || (ga && gb) {
            return self.ult(a, b);
        }
        if na && gb {
            return self.cst(1, 0);
        }
        if ga && nb {
            return self.cst(1, 1);
        }
        // one side constant, the other a choice with a leaf that decides it
        let (xa, xb) = (self.n(a), self.n(b));
        if xb.op == Op::Const && xa.op == Op::Ite {
            let x = self.slt(xa.b, b);
            let y = self.slt(xa.c, b);
            if self.is_const(x).is_some() || self.is_const(y).is_some() {
                return self.ite(xa.a, x, y);
            }
        }
        if xa.op == Op::Const && xb.op == Op::Ite {
            let x = self.slt(a, xb.b);
            let y = self.slt(a, xb.c);
            if self.is_const(x).is_some() || self.is_const(y).is_some() {
                return self.ite(xb.a, x, y);
            }
        }
        // bias to unsigned
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }

    // ---------------------------------------------------------------- entry points

    pub fn bin(&mut self, op: Bin, w: u32, a: V, b: V) -> V {
        let x = self.node(a, w);
        let y = self.node(b, w);
        let r = match op {
            Bin::Add => self.add(w, x, y),
            Bin::Sub => {
                if x == y {
                    self.cst(w, 0)
                } else {
                    let n = self.neg(w, y);
                    self.add(w, x, n)
                }
            }
            Bin::Mul => self.mul(w, x, y),
            Bin::And => self.logic(Op::And, w, x, y),
            Bin::Or => self.logic(Op::Or, w, x, y),
            Bin::Xor => self.logic(Op::Xor, w, x, y),
            Bin::Shl => self.shl(w, x, y),
            Bin::LShr => self.lshr(w, x, y),
            Bin::AShr => self.ashr(w, x, y),
            Bin::UDiv => match self.is_const(y) {
                Some(k) if k.is_power_of_two() => {
                    let s = self.cst(w, k.trailing_zeros() as u64);
                    self.lshr(w, x, s)
                }
                _ => self.raw(Op::UDiv, w, x, y, 0, 0),
            },
            Bin::URem => match self.is_const(y) {
                Some(k) if k.is_power_of_two() => {
                    let s = self.cst(w, k - 1);
                    self.logic(Op::And, w, x, s)
                }
                _ => self.raw(Op::URem, w, x, y, 0, 0),
            },
            Bin::SDiv => self.raw(Op::SDiv, w, x, y, 0, 0),
            Bin::SRem => self.raw(Op::SRem, w, x, y, 0, 0),
        };
        self.v(r)
    }

    pub fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        let x = self.node(a, w);
        let y = self.node(b, w);
        let r = match p {
            Pred::Eq => self.eq(x, y),
            Pred::Ne => {
                let e = self.eq(x, y);
                self.not(e)
            }
            Pred::Ult => self.ult(x, y),
            Pred::Ugt => self.ult(y, x),
            Pred::Ule => {
                let e = self.ult(y, x);
                self.not(e)
            }
            Pred::Uge => {
                let e = self.ult(x, y);
                self.not(e)
            }
            Pred::Slt => self.slt(x, y),
            Pred::Sgt => self.slt(y, x),
            Pred::Sle => {
                let e = self.slt(y, x);
                self.not(e)
            }
            Pred::Sge => {
                let e = self.slt(x, y);
                self.not(e)
            }
        };
        self.v(r)
    }

    // ---------------------------------------------------------------- evaluation

    /// value of `e` under the assignment (missing variables take their lower bound)
    pub fn eval(&mut self, e: u32, model: &[u64]) -> u64 {
        self.eval_gen = self.eval_gen.wrapping_add(1);
        if self.eval_cache.len() < self.nodes.len() {
            self.eval_cache.resize(self.nodes.len() + 1024, (0, 0));
        }
        let g = self.eval_gen;
        self.ev(e, model, g)
    }
    fn ev(&mut self, e: u32, m: &[u64], g: u32) -> u64 {
        let (cg, cv) = self.eval_cache[e as usize];
        if cg == g {
            return cv;
        }
        let n = self.n(e);
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => m.get(n.c as usize).copied().unwrap_or(n.k),
            Op::Ite => {
                if self.ev(n.a, m, g) & 1 == 1 {
                    self.ev(n.b, m, g)
                } else {
                    self.ev(n.c, m, g)
                }
            }
            Op::Not => self.ev(n.a, m, g) ^ 1,
            Op::Extract => self.ev(n.a, m, g) >> n.k,
            Op::SExt => sext(self.ev(n.a, m, g), self.w(n.a)) as u64,
            _ => {
                let a = self.ev(n.a, m, g);
                let b = self.ev(n.b, m, g);
                let aw = self.w(n.a);
                match n.op {
                    Op::Add => a.wrapping_add(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => {
                        if b == 0 {
                            !0
                        } else {
                            a / b
                        }
                    }
                    Op::URem => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    Op::SDiv => {
                        let (x, y) = (sext(a, w), sext(b, w));
                        if y == 0 {
                            if x < 0 {
                                1
                            } else {
                                !0
                            }
                        } else {
                            x.wrapping_div(y) as u64
                        }
                    }
                    Op::SRem => {
                        let (x, y) = (sext(a, w), sext(b, w));
                        if y == 0 {
                            a
                        } else {
                            x.wrapping_rem(y) as u64
                        }
                    }
                    Op::Shl => {
                        if b >= w as u64 {
                            0
                        } else {
                            a << b
                        }
                    }
                    Op::LShr => {
                        if b >= w as u64 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    Op::AShr => (sext(a, w) >> (b.min(w as u64 - 1))) as u64,
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Eq => (a == b) as u64,
                    Op::Ult => (a < b) as u64,
                    Op::Slt => (sext(a, aw) < sext(b, aw)) as u64,
                    Op::Concat => (a << self.w(n.b)) | b,
                    _ => unreachable!(),
                }
            }
        } & mask(w);
        self.eval_cache[e as usize] = (g, r);
        r
    }

    // ---------------------------------------------------------------- SMT-LIB

    /// let-free SMT-LIB text (used for cross-checking a sample of the queries)
    pub fn smt(&self, e: u32, out: &mut String, defs: &mut HashMap<u32, String>) -> String {
        if let Some(s) = defs.get(&e) {
            return s.clone();
        }
        let n = self.n(e);
        let w = n.w as u32;
        let body = match n.op {
            Op::Const => return format!("(_ bv{} {})", n.k, w),
            Op::Var => {
                let nm = format!("x{}", n.c);
                let (lo, hi) = (self.m(e).umin, self.m(e).umax);
                out.push_str(&format!("(declare-const {} (_ BitVec {}))\n", nm, w));
                out.push_str(&format!(
                    "(assert (and (bvule (_ bv{} {w}) {nm}) (bvule {nm} (_ bv{} {w}))))\n",
                    lo, hi
                ));
                defs.insert(e, nm.clone());
                return nm;
            }
            _ => {
                let a = self.smt(n.a, out, defs);
                let b = if n.b != 0 {
                    self.smt(n.b, out, defs)
                } else {
                    String::new()
                };
                let c = if n.c != 0 {
                    self.smt(n.c, out, defs)
                } else {
                    String::new()
                };
                let f = |o: &str| format!("({} {} {})", o, a, b);
                match n.op {
                    Op::Add => f("bvadd"),
                    Op::Mul => f("bvmul"),
                    Op::UDiv => f("bvudiv"),
                    Op::SDiv => f("bvsdiv"),
                    Op::URem => f("bvurem"),
                    Op::SRem => f("bvsrem"),
                    Op::Shl => f("bvshl"),
                    Op::LShr => f("bvlshr"),
                    Op::AShr => f("bvashr"),
                    Op::And => f("bvand"),
                    Op::Or => f("bvor"),
                    Op::Xor => f("bvxor"),
                    Op::Not => format!("(bvnot {})", a),
                    Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, b),
                    Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b),
                    Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b),
                    Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
                    Op::SExt => format!("((_ sign_extend {}) {})", w - self.w(n.a), a),
                    Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, a),
                    Op::Concat => f("concat"),
                    _ => unreachable!(),
                }
            }
        };
        let nm = format!("e{}", e);
        out.push_str(&format!(
            "(define-fun {} () (_ BitVec {}) {})\n",
            nm, w, body
        ));
        defs.insert(e, nm.clone());
        nm
    }
}

/// runs of equal bits of `k`, most significant first: (bit, lo, len)
fn runs(k: u64, w: u32) -> Vec<(bool, u32, u32)> {
    let mut out = vec![];
    let mut i = w;
    while i > 0 {
        let bit = (k >> (i - 1)) & 1 == 1;
        let mut j = i;
        while j > 0 && ((k >> (j - 1)) & 1 == 1) == bit {
            j -= 1;
        }
        out.push((bit, j, i - j));
        i = j;
    }
    out
}
