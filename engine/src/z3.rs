//! Minimal binding to the Z3 C API: expressions -> Z3 terms, satisfiability queries.

use crate::expr::{Arena, Op, Sup, NVW};
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(2);
}

pub struct Solver {
    ctx: P,
    s: P,
    sorts: Vec<P>,
    bv: HashMap<u32, P>,
    bl: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    cache: HashMap<Box<[u32]>, Option<Box<[(u16, u64)]>>>,
    /// sampled queries in SMT-LIB form with the verdict
    pub dump: Vec<(String, bool)>,
    pub dump_max: usize,
}

pub enum Ans {
    /// values of the variables of the slice
    Sat(Vec<(u16, u64)>),
    Unsat,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let q = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(ctx, q);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=64 {
                let t = Z3_mk_bv_sort(ctx, w);
                Z3_inc_ref(ctx, t);
                sorts.push(t);
            }
            Solver {
                ctx,
                s,
                sorts,
                bv: HashMap::new(),
                bl: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cache_hits: 0,
                time: 0.0,
                cache: HashMap::new(),
                dump: vec![],
                dump_max: 0,
            }
        }
    }

    fn num(&self, w: u32, v: u64) -> P {
        unsafe { Z3_mk_unsigned_int64(self.ctx, v, self.sorts[w as usize]) }
    }

    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, p) };
        p
    }

    fn zv(&mut self, ar: &Arena, e: u32) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = ar.nodes[e as usize];
        let w = n.w as u32;
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, (n.c as i32) * 65 + w as i32);
                    Z3_mk_const(c, s, self.sorts[w as usize])
                }
                Op::Extract => {
                    let a = self.zv(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                _ if w == 1
                    && matches!(
                        n.op,
                        Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Slt
                    ) =>
                {
                    let b = self.zb(ar, e);
                    let one = self.keep(self.num(1, 1));
                    let zero = self.keep(self.num(1, 0));
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let k = self.zb(ar, n.a);
                    let a = self.zv(ar, n.b);
                    let b = self.zv(ar, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::SExt => {
                    let a = self.zv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                _ => {
                    let a = self.zv(ar, n.a);
                    let b = self.zv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.keep(r);
            self.bv.insert(e, r);
            r
        }
    }

    fn zb(&mut self, ar: &Arena, e: u32) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = ar.nodes[e as usize];
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.zb(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.zb(ar, n.a), self.zb(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.zb(ar, n.a), self.zb(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.zb(ar, n.a);
                    let b = self.zb(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let k = self.zb(ar, n.a);
                    let a = self.zb(ar, n.b);
                    let b = self.zb(ar, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::Eq => {
                    let a = self.zv(ar, n.a);
                    let b = self.zv(ar, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let a = self.zv(ar, n.a);
                    let b = self.zv(ar, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.zv(ar, n.a);
                    let b = self.zv(ar, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.zv(ar, e);
                    let one = self.keep(self.num(1, 1));
                    Z3_mk_eq(c, a, one)
                }
            };
            self.keep(r);
            self.bl.insert(e, r);
            r
        }
    }

    /// is the conjunction of `cs` (all of width 1) satisfiable?  `vars` maps variable index ->
    /// expression of every variable of the path.
    pub fn check(&mut self, ar: &Arena, mut cs: Vec<u32>, vars: &[u32]) -> Ans {
        cs.sort_unstable();
        cs.dedup();
        let key: Box<[u32]> = cs.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                None => Ans::Unsat,
                Some(m) => Ans::Sat(m.to_vec()),
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut sup: Sup = [0; NVW];
        for &e in key.iter() {
            for i in 0..NVW {
                sup[i] |= ar.meta[e as usize].sup[i];
            }
        }
        let mut vs = vec![];
        for (i, &v) in vars.iter().enumerate() {
            if sup[i / 64] >> (i % 64) & 1 == 1 {
                vs.push((i, v));
            }
        }
        let (c, s) = (self.ctx, self.s);
        let r = unsafe {
            Z3_solver_push(c, s);
            for &(_, v) in &vs {
                let m = ar.meta[v as usize];
                let w = ar.w(v);
                let z = self.zv(ar, v);
                if m.umin > 0 {
                    let k = self.keep(self.num(w, m.umin));
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, k, z));
                }
                if m.umax < crate::ir::mask(w) {
                    let k = self.keep(self.num(w, m.umax));
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, z, k));
                }
            }
            for &e in key.iter() {
                let z = self.zb(ar, e);
                Z3_solver_assert(c, s, z);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(i, v) in &vs {
                        let z = self.zv(ar, v);
                        let mut o = std::ptr::null_mut();
                        let mut k = 0u64;
                        if !Z3_model_eval(c, m, z, true, &mut o)
                            || !Z3_get_numeral_uint64(c, o, &mut k)
                        {
                            eprintln!("z3: no model value");
                            std::process::exit(2);
                        }
                        out.push((i as u16, k));
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Some(out)
                }
                -1 => {
                    self.unsat += 1;
                    None
                }
                _ => {
                    println!("{{\"fatal\":\"solver returned unknown\"}}");
                    std::process::exit(2);
                }
            };
            Z3_solver_pop(c, s, 1);
            out
        };
        if self.dump.len() < self.dump_max && self.queries % 7 == 1 {
            let mut txt = String::from("(set-logic QF_BV)\n");
            let mut defs = HashMap::new();
            for &e in key.iter() {
                let n = ar.smt(e, &mut txt, &mut defs);
                txt.push_str(&format!("(assert (= {} #b1))\n", n));
            }
            txt.push_str("(check-sat)\n");
            self.dump.push((txt, r.is_some()));
        }
        self.time += t0.elapsed().as_secs_f64();
        let ans = match &r {
            None => Ans::Unsat,
            Some(m) => Ans::Sat(m.clone()),
        };
        self.cache.insert(key, r.map(|m| m.into_boxed_slice()));
        ans
    }
}
