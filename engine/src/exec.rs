//! Symbolic interpreter: path forking over the compact IR.

use crate::expr::{Arena, Op, V};
use crate::ir::*;
use crate::z3::{Ans, Solver};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

// ------------------------------------------------------------------ memory

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>, // expression (width 8) of every byte, 0 = concrete
    pub kind: u8,              // 0 heap 1 stack 2 global
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    pub live_bytes: u64,
}

impl Mem {
    fn new(prog: &Program) -> Mem {
        let mut m = Mem {
            chunks: vec![],
            free: vec![],
            next: 1,
            live_bytes: 0,
        };
        for g in &prog.globals {
            let id = m.next;
            m.next += 1;
            m.put(
                id,
                Some(Rc::new(Obj {
                    data: g.bytes.clone(),
                    sym: None,
                    kind: 2,
                })),
            );
        }
        m
    }
    fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let c = id as usize / CH;
        while c >= self.chunks.len() {
            self.chunks.push(Rc::new(Default::default()));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = o;
    }
    fn alloc(&mut self, size: usize, kind: u8) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                i
            }
        };
        self.live_bytes += size as u64;
        self.put(
            id,
            Some(Rc::new(Obj {
                data: vec![0; size],
                sym: None,
                kind,
            })),
        );
        id
    }
    fn free(&mut self, id: u32) {
        if let Some(o) = self.obj(id) {
            let n = o.data.len() as u64;
            self.live_bytes -= n;
        }
        self.put(id, None);
        self.free.push(id);
    }
    #[inline(always)]
    fn obj(&self, id: u32) -> Option<&Obj> {
        match self.chunks.get(id as usize / CH) {
            Some(c) => c[id as usize % CH].as_deref(),
            None => None,
        }
    }
    #[inline(always)]
    fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => {
                let c = Rc::make_mut(c);
                c[id as usize % CH].as_mut().map(Rc::make_mut)
            }
            None => None,
        }
    }
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,   // return address while a callee runs
    base: u32, // first register slot
    obj: u32,  // stack object, 0 = none
    dst: u32,  // destination slot in the caller (absolute)
    ndst: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<V>,
    mem: Mem,
    cons: Vec<u32>,
    known: Rc<HashMap<u32, bool>>,
    vars: Vec<u32>,
    model: Rc<Vec<u64>>,
    model_ok: bool,
    inputs: Vec<V>,
    digests: Vec<V>,
    reach: Vec<u32>,
    trace: Vec<u64>,
    replay: Rc<Vec<u64>>,
    forced: Option<u64>,
    pub ins: u64,
    stack: u64,
    conc: HashMap<u32, u32>,
}

#[derive(Debug)]
pub enum End {
    Done,
    Assume,
    Fail(String),
    Fatal(String),
}

pub struct Violation {
    pub kind: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

pub struct PathRec {
    pub inputs: Vec<u64>,
    pub digest: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assume: u64,
    pub forks: u64,
    pub ins: u64,
    pub max_ins: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub checks_by_id: HashMap<u64, u64>,
    pub reach: HashMap<u32, u64>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub solver_s: f64,
    pub max_vars: usize,
    pub max_stack: u64,
}

pub struct Cfg {
    pub max_ins: u64,
    pub max_depth: usize,
    pub max_stack: u64, // estimated bytes of stack in use
    pub max_heap: u64,
    pub time_s: f64,
    pub sample: u64,
    pub sample_max: usize,
    pub keys: (u64, u64),
    pub max_viol: usize,
    pub dump_max: usize,
    pub solver_ms: u32,
    pub stats_blocks: bool,
    pub const_hash: bool,
    pub params: Vec<u64>,
}

pub struct Shared {
    pub q: Mutex<(VecDeque<Vec<u64>>, usize)>, // traces, idle workers
    pub cv: Condvar,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub sym_hash: AtomicBool, // a key of a map was symbolic
    pub nthreads: usize,
    pub start: Instant,
    pub paths: AtomicU64,
    pub out: Mutex<Output>,
}

#[derive(Default)]
pub struct Output {
    pub viol: Vec<Violation>,
    pub fatal: Vec<String>,
    pub recs: Vec<PathRec>,
    pub stats: Stats,
    pub funcs: HashSet<u32>,
    pub dump: Vec<(String, bool)>,
    pub timeout: bool,
    pub blocks: HashMap<(u32, u32), u64>,
    pub sites: HashMap<String, u64>,
}

pub struct Worker<'p> {
    prog: &'p Program,
    ar: Arena,
    sol: Solver,
    cfg: &'p Cfg,
    sh: &'p Shared,
    stack: VecDeque<State>,
    stats: Stats,
    funcs: Vec<bool>,
    blocks: HashMap<(u32, u32), u64>,
    sites: HashMap<String, u64>,
    recs: Vec<PathRec>,
    root: Option<State>,
}

enum Sig {
    Next,
    End(End),
}

type R<T> = Result<T, End>;

fn fatal<T>(s: impl Into<String>) -> R<T> {
    Err(End::Fatal(s.into()))
}

impl<'p> Worker<'p> {
    pub fn new(prog: &'p Program, cfg: &'p Cfg, sh: &'p Shared) -> Self {
        let mut sol = Solver::new(cfg.solver_ms);
        sol.dump_max = cfg.dump_max;
        Worker {
            prog,
            ar: Arena::new(),
            sol,
            cfg,
            sh,
            stack: VecDeque::new(),
            stats: Stats::default(),
            funcs: vec![false; prog.funcs.len()],
            blocks: HashMap::new(),
            sites: HashMap::new(),
            recs: vec![],
            root: None,
        }
    }

    fn initial(&mut self, entry: u32) -> State {
        if let Some(r) = &self.root {
            return r.clone();
        }
        let mut st = State {
            frames: vec![],
            regs: vec![],
            mem: Mem::new(self.prog),
            cons: vec![],
            known: Rc::new(HashMap::new()),
            vars: vec![],
            model: Rc::new(vec![]),
            model_ok: true,
            inputs: vec![],
            digests: vec![],
            reach: vec![],
            trace: vec![],
            replay: Rc::new(vec![]),
            forced: None,
            ins: 0,
            stack: 0,
            conc: HashMap::new(),
        };
        self.push_frame(&mut st, entry, &[], 0, 0).ok().unwrap();
        self.root = Some(st.clone());
        st
    }

    pub fn run(&mut self, entry: u32) {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let st = match self.stack.pop_back() {
                Some(s) => s,
                None => {
                    let mut g = self.sh.q.lock().unwrap();
                    loop {
                        if self.sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(t) = g.0.pop_front() {
                            drop(g);
                            let mut s = self.initial(entry);
                            s.model_ok = t.is_empty();
                            s.replay = Rc::new(t);
                            self.stack.push_back(s);
                            break;
                        }
                        g.1 += 1;
                        self.sh.hungry.store(g.1, Ordering::Relaxed);
                        if g.1 == self.sh.nthreads {
                            self.sh.stop.store(true, Ordering::Relaxed);
                            self.sh.cv.notify_all();
                            break;
                        }
                        g = self.sh.cv.wait(g).unwrap();
                        g.1 -= 1;
                        self.sh.hungry.store(g.1, Ordering::Relaxed);
                    }
                    continue;
                }
            };
            self.run_path(st);
            if self.sh.start.elapsed().as_secs_f64() > self.cfg.time_s {
                self.sh.out.lock().unwrap().timeout = true;
                self.halt();
            }
        }
        self.finish();
    }

    fn halt(&self) {
        self.sh.stop.store(true, Ordering::Relaxed);
        let _g = self.sh.q.lock().unwrap();
        self.sh.cv.notify_all();
    }

    fn finish(&mut self) {
        let mut o = self.sh.out.lock().unwrap();
        let s = &mut o.stats;
        let t = &self.stats;
        s.paths += t.paths;
        s.done += t.done;
        s.assume += t.assume;
        s.forks += t.forks;
        s.ins += t.ins;
        s.max_ins = s.max_ins.max(t.max_ins);
        s.checks += t.checks;
        s.sym_checks += t.sym_checks;
        s.max_vars = s.max_vars.max(t.max_vars);
        s.max_stack = s.max_stack.max(t.max_stack);
        for (k, v) in &t.checks_by_id {
            *s.checks_by_id.entry(*k).or_default() += v;
        }
        for (k, v) in &t.reach {
            *s.reach.entry(*k).or_default() += v;
        }
        s.queries += self.sol.queries;
        s.sat += self.sol.sat;
        s.unsat += self.sol.unsat;
        s.cache_hits += self.sol.cache_hits;
        s.solver_s += self.sol.time;
        for (i, b) in self.funcs.iter().enumerate() {
            if *b {
                o.funcs.insert(i as u32);
            }
        }
        for (k, v) in self.blocks.drain() {
            *o.blocks.entry(k).or_default() += v;
        }
        for (k, v) in self.sites.drain() {
            *o.sites.entry(k).or_default() += v;
        }
        o.recs.append(&mut self.recs);
        o.dump.append(&mut self.sol.dump);
    }

    fn run_path(&mut self, mut st: State) {
        let i0 = st.ins;
        let end = self.exec(&mut st);
        self.stats.ins += st.ins - i0;
        self.stats.max_ins = self.stats.max_ins.max(st.ins);
        self.stats.max_vars = self.stats.max_vars.max(st.vars.len());
        self.stats.paths += 1;
        self.sh.paths.fetch_add(1, Ordering::Relaxed);
        match end {
            End::Done => {
                self.stats.done += 1;
                for r in &st.reach {
                    *self.stats.reach.entry(*r).or_default() += 1;
                }
                let h = st.trace.iter().fold(1469598103934665603u64, |h, &x| {
                    (h ^ x).wrapping_mul(1099511628211)
                });
                let h = (h >> 20) ^ h;
                if self.recs.len() < self.cfg.sample_max
                    && (h % self.cfg.sample == 0 || self.stats.done <= 4)
                {
                    if let Err(e) = self.need_model(&mut st) {
                        self.report(&st, e);
                        return;
                    }
                    let m = st.model.clone();
                    let inputs = self.inputs(&st);
                    let mut d = 0xcbf29ce484222325u64;
                    for v in &st.digests {
                        let x = if v.e == 0 { v.c } else { self.ar.eval(v.e, &m) };
                        d = (d ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
                    }
                    self.recs.push(PathRec { inputs, digest: d });
                }
            }
            End::Assume => self.stats.assume += 1,
            e => self.report(&st, e),
        }
    }

    fn inputs(&mut self, st: &State) -> Vec<u64> {
        let m = st.model.clone();
        st.inputs
            .iter()
            .map(|v| if v.e == 0 { v.c } else { self.ar.eval(v.e, &m) })
            .collect()
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(24)
            .map(|f| demangle(&self.prog.func_names[f.func as usize]))
            .collect()
    }

    fn report(&mut self, st: &State, e: End) {
        let stack = self.stack_names(st);
        match e {
            End::Fail(kind) => {
                let mut st = st.clone();
                let _ = self.need_model(&mut st);
                let inputs = self.inputs(&st);
                let mut o = self.sh.out.lock().unwrap();
                o.viol.push(Violation {
                    kind,
                    inputs,
                    stack,
                });
                if o.viol.len() >= self.cfg.max_viol {
                    drop(o);
                    self.halt();
                }
            }
            End::Fatal(s) => {
                let mut o = self.sh.out.lock().unwrap();
                o.fatal.push(format!("{} [{}]", s, stack.join(" < ")));
                if o.fatal.len() > 3 {
                    drop(o);
                    self.halt();
                }
            }
            _ => {}
        }
    }

    // -------------------------------------------------------------- solver side

    /// all constraints of the path connected (through variables) with `e`
    fn slice(&self, st: &State, e: u32) -> Vec<u32> {
        let mut sup = self.ar.meta[e as usize].sup;
        let mut taken = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if !taken[i] {
                    let s = &self.ar.meta[c as usize].sup;
                    if (0..sup.len()).any(|k| s[k] & sup[k] != 0) {
                        taken[i] = true;
                        out.push(c);
                        for k in 0..sup.len() {
                            if s[k] & !sup[k] != 0 {
                                changed = true;
                            }
                            sup[k] |= s[k];
                        }
                    }
                }
            }
            if !changed {
                return out;
            }
        }
    }

    fn query(&mut self, st: &State, e: u32) -> Ans {
        let mut cs = self.slice(st, e);
        cs.push(e);
        self.sol.check(&self.ar, cs, &st.vars)
    }

    fn apply_model(st: &mut State, vals: &[(u16, u64)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(i, v) in vals {
            if m.len() <= i as usize {
                m.resize(i as usize + 1, 0);
            }
            m[i as usize] = v;
        }
    }

    fn need_model(&mut self, st: &mut State) -> R<()> {
        if st.model_ok {
            return Ok(());
        }
        // solve independent groups of constraints separately
        let mut done: HashSet<u32> = HashSet::new();
        let cons = st.cons.clone();
        for c in cons {
            if done.contains(&c) {
                continue;
            }
            let s = self.slice(st, c);
            for x in &s {
                done.insert(*x);
            }
            done.insert(c);
            match self.sol.check(&self.ar, s, &st.vars) {
                Ans::Sat(v) => Self::apply_model(st, &v),
                Ans::Unsat => return fatal("replayed path is infeasible"),
            }
        }
        st.model_ok = true;
        Ok(())
    }

    fn learn(&mut self, st: &mut State, e: u32, b: bool) {
        let n = self.ar.nodes[e as usize];
        let kn = Rc::make_mut(&mut st.known);
        kn.insert(e, b);
        match n.op {
            Op::Not => self.learn(st, n.a, !b),
            Op::And if b => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            Op::Or if !b => {
                self.learn(st, n.a, false);
                self.learn(st, n.b, false);
            }
            _ => {}
        }
    }
    fn push_cons(&mut self, st: &mut State, e: u32) {
        let n = self.ar.nodes[e as usize];
        match n.op {
            Op::And => {
                self.push_cons(st, n.a);
                self.push_cons(st, n.b);
            }
            Op::Not => {
                let m = self.ar.nodes[n.a as usize];
                if m.op == Op::Or {
                    let x = self.ar.not(m.a);
                    let y = self.ar.not(m.b);
                    self.push_cons(st, x);
                    self.push_cons(st, y);
                } else {
                    st.cons.push(e);
                }
            }
            Op::Const => {}
            _ => st.cons.push(e),
        }
    }
    fn constrain(&mut self, st: &mut State, e: u32, b: bool) {
        self.learn(st, e, b);
        let c = if b { e } else { self.ar.not(e) };
        self.push_cons(st, c);
    }

    fn lookup(&self, st: &State, e: u32) -> Option<bool> {
        let n = self.ar.nodes[e as usize];
        if n.op == Op::Const {
            return Some(n.k == 1);
        }
        if let Some(&b) = st.known.get(&e) {
            return Some(b);
        }
        match n.op {
            Op::Not => self.lookup(st, n.a).map(|b| !b),
            Op::And => match (self.lookup(st, n.a), self.lookup(st, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.lookup(st, n.a), self.lookup(st, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }

    fn donate(&mut self) {
        let hungry = self.sh.hungry.load(Ordering::Relaxed);
        if hungry == 0 || self.stack.len() < 2 {
            return;
        }
        let mut g = self.sh.q.lock().unwrap();
        while g.0.len() < hungry && self.stack.len() >= 2 {
            let s = self.stack.pop_front().unwrap();
            if !s.model_ok {
                // still replaying: nothing to gain
                self.stack.push_front(s);
                break;
            }
            let mut t = s.trace;
            if let Some(f) = s.forced {
                t.push(f);
            }
            g.0.push_back(t);
            self.sh.cv.notify_one();
        }
    }

    /// Take a decision on the width-1 expression `e` in `st`; the other feasible side (if any) is
    /// pushed as a new state which re-executes the current instruction.
    fn decide(&mut self, st: &mut State, e: u32) -> R<bool> {
        if let Some(b) = self.lookup(st, e) {
            return Ok(b);
        }
        if st.trace.len() < st.replay.len() {
            let b = st.replay[st.trace.len()] == 1;
            st.trace.push(b as u64);
            self.constrain(st, e, b);
            return Ok(b);
        }
        self.need_model(st)?;
        let m = st.model.clone();
        let b = self.ar.eval(e, &m) & 1 == 1;
        let other = if b { self.ar.not(e) } else { e };
        match self.query(st, other) {
            Ans::Unsat => {
                st.trace.push(b as u64);
                self.learn(st, e, b);
            }
            Ans::Sat(vals) => {
                let mut ch = st.clone();
                ch.trace.push(!b as u64);
                self.constrain(&mut ch, e, !b);
                Self::apply_model(&mut ch, &vals);
                self.stats.forks += 1;
                if self.cfg.stats_blocks {
                    let k = self
                        .stack_names(st)
                        .iter()
                        .take(5)
                        .cloned()
                        .collect::<Vec<_>>()
                        .join(" < ");
                    *self.sites.entry(k).or_default() += 1;
                }
                self.stack.push_back(ch);
                self.donate();
                st.trace.push(b as u64);
                self.constrain(st, e, b);
            }
        }
        Ok(b)
    }

    /// conditions that choose among parts of `e`, each counted once
    fn count_ites(&self, e: u32, seen: &mut Vec<u32>, n: &mut usize) {
        if *n > 16 || seen.len() > 100 {
            *n = 17;
            return;
        }
        let x = self.ar.nodes[e as usize];
        if matches!(x.op, Op::Const | Op::Var) || seen.contains(&e) {
            return;
        }
        seen.push(e);
        match x.op {
            Op::Ite => {
                *n += 1;
                self.count_ites(x.b, seen, n);
                self.count_ites(x.c, seen, n);
            }
            Op::Add | Op::Mul | Op::Shl | Op::And | Op::Or | Op::Concat => {
                self.count_ites(x.a, seen, n);
                self.count_ites(x.b, seen, n);
            }
            Op::Extract | Op::SExt => self.count_ites(x.a, seen, n),
            _ => {}
        }
    }

    fn settle(&mut self, st: &mut State, e: u32) -> R<u32> {
        let x = self.ar.nodes[e as usize];
        let w = x.w as u32;
        Ok(match x.op {
            Op::Ite => {
                let b = self.decide(st, x.a)?;
                self.settle(st, if b { x.b } else { x.c })?
            }
            Op::Add | Op::Mul | Op::Shl | Op::And | Op::Or | Op::Concat => {
                let (a, b) = (self.settle(st, x.a)?, self.settle(st, x.b)?);
                if (a, b) == (x.a, x.b) {
                    return Ok(e);
                }
                if x.op == Op::Concat {
                    return Ok(self.ar.concat(a, b));
                }
                let op = match x.op {
                    Op::Add => Bin::Add,
                    Op::Mul => Bin::Mul,
                    Op::Shl => Bin::Shl,
                    Op::And => Bin::And,
                    _ => Bin::Or,
                };
                let (a, b) = (self.ar.v(a), self.ar.v(b));
                let v = self.ar.bin(op, w, a, b);
                self.ar.node(v, w)
            }
            Op::Extract => {
                let a = self.settle(st, x.a)?;
                self.ar.extract(a, x.k as u32, w)
            }
            Op::SExt => {
                let a = self.settle(st, x.a)?;
                self.ar.sxt(a, w)
            }
            _ => e,
        })
    }

    /// a concrete value for `v` on this path (forks over all feasible values)
    fn concretize(&mut self, st: &mut State, v: V, w: u32) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        // narrow: a zero-extended value
        let n = self.ar.nodes[v.e as usize];
        if n.op == Op::Concat && self.ar.nodes[n.a as usize].op == Op::Const {
            let hi = self.ar.nodes[n.a as usize].k;
            let bw = self.ar.w(n.b);
            let low = self.concretize(st, V { e: n.b, c: 0 }, bw)?;
            return Ok(hi << bw | low);
        }
        if !st.conc.contains_key(&v.e) {
            let mut ites = 0;
            self.count_ites(v.e, &mut vec![], &mut ites);
            if (3..=16).contains(&ites) {
                // chosen by conditions (a search without branches): decide these instead of the value
                let e = self.settle(st, v.e)?;
                if e != v.e {
                    return if self.ar.nodes[e as usize].op == Op::Const {
                        Ok(self.ar.nodes[e as usize].k)
                    } else {
                        self.concretize(st, V { e, c: 0 }, w)
                    };
                }
            }
        }
        loop {
            let k = if let Some(&c) = st.conc.get(&v.e) {
                // value fixed earlier on this path
                return Ok(self.ar.nodes[c as usize].k);
            } else if st.trace.len() < st.replay.len() {
                let k = st.replay[st.trace.len()];
                st.trace.push(k);
                k
            } else {
                self.need_model(st)?;
                let m = st.model.clone();
                let k = self.ar.eval(v.e, &m);
                st.trace.push(k);
                k
            };
            let c = self.ar.cst(w, k);
            let e = self.ar.eq(v.e, c);
            if self.decide(st, e)? {
                st.conc.insert(v.e, c);
                return Ok(k);
            }
        }
    }

    // -------------------------------------------------------------- memory access

    fn bad_access(&self, st: &State, what: &str, p: u64, n: u64) -> End {
        let _ = st;
        End::Fail(format!("memory: {} of {} bytes at {:#x}", what, n, p))
    }

    /// a byte of a small table at a symbolic place, as an expression
    fn load_table(&mut self, st: &State, p: u32) -> Option<V> {
        if st.conc.contains_key(&p) {
            return None;
        }
        let m = &self.ar.meta[p as usize];
        let (lo, hi) = (m.umin, m.umax);
        if hi - lo > 255 || lo >> 32 != hi >> 32 {
            return None;
        }
        let o = st.mem.obj((lo >> 32) as u32)?;
        let (a, b) = ((lo & 0xffff_ffff) as usize, (hi & 0xffff_ffff) as usize);
        if b >= o.data.len() {
            return None;
        }
        if let Some(s) = &o.sym {
            if s[a..=b].iter().any(|&e| e != 0) {
                return None;
            }
        }
        let d = &o.data[a..=b];
        // (first place, value there, step) of each run of equal or of successive bytes
        let mut runs: Vec<(u64, u8, u8)> = vec![];
        let mut i = 0;
        while i < d.len() {
            let len = |step: u8| {
                (i + 1..d.len())
                    .take_while(|&j| d[j] == d[j - 1].wrapping_add(step))
                    .count()
            };
            let (c, s) = (len(0), len(1));
            let step = (s > c) as u8;
            runs.push((lo + i as u64, d[i], step));
            i += 1 + c.max(s);
            if runs.len() > 32 {
                return None;
            }
        }
        let mut acc = None;
        for i in (0..runs.len()).rev() {
            let (at, val, step) = runs[i];
            let v = if step == 0 {
                self.ar.cst(8, val as u64)
            } else {
                let low = self.ar.extract(p, 0, 8);
                let k = self.ar.cst(8, val.wrapping_sub(at as u8) as u64);
                self.ar.add(8, low, k)
            };
            acc = Some(match acc {
                None => v,
                Some(e) => {
                    let bound = self.ar.cst(64, runs[i + 1].0);
                    let c = self.ar.ult(p, bound);
                    self.ar.ite(c, v, e)
                }
            });
        }
        let acc = acc.unwrap();
        Some(self.ar.v(acc))
    }

    fn load(&mut self, st: &mut State, p: V, w: u32) -> R<V> {
        if p.e != 0 && w == 8 {
            if let Some(v) = self.load_table(st, p.e) {
                return Ok(v);
            }
        }
        let a = if p.e == 0 { p.c } else { self.addr(st, p)? };
        let n = ((w + 7) / 8) as usize;
        let (id, off) = ((a >> 32) as u32, (a & 0xffff_ffff) as usize);
        let o = match st.mem.obj(id) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return Err(self.bad_access(st, "load", a, n as u64)),
        };
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|&e| e != 0) {
                let mut acc = 0u32;
                for i in (0..n).rev() {
                    let b = if s[off + i] != 0 {
                        s[off + i]
                    } else {
                        self.ar.cst(8, o.data[off + i] as u64)
                    };
                    acc = if acc == 0 { b } else { self.ar.concat(acc, b) };
                }
                if w % 8 != 0 {
                    acc = self.ar.extract(acc, 0, w);
                }
                return Ok(self.ar.v(acc));
            }
        }
        let d = &o.data;
        let v = match n {
            8 => u64::from_le_bytes(d[off..off + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(d[off..off + 4].try_into().unwrap()) as u64,
            1 => d[off] as u64,
            2 => u16::from_le_bytes(d[off..off + 2].try_into().unwrap()) as u64,
            _ => {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&d[off..off + n]);
                u64::from_le_bytes(b)
            }
        };
        Ok(V::c(v & mask(w)))
    }

    fn store(&mut self, st: &mut State, p: V, w: u32, v: V) -> R<()> {
        let a = if p.e == 0 { p.c } else { self.addr(st, p)? };
        let n = ((w + 7) / 8) as usize;
        let (id, off) = ((a >> 32) as u32, (a & 0xffff_ffff) as usize);
        let mut es = [0u32; 8];
        if v.e != 0 {
            let mut e = v.e;
            if w % 8 != 0 {
                e = self.ar.zext(e, n as u32 * 8);
            }
            for i in 0..n {
                es[i] = self.ar.extract(e, i as u32 * 8, 8);
            }
        }
        let o = match st.mem.obj_mut(id) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return Err(self.bad_access(st, "store", a, n as u64)),
        };
        if v.e != 0 {
            let len = o.data.len();
            let s = o.sym.get_or_insert_with(|| vec![0; len]);
            for i in 0..n {
                let nd = self.ar.nodes[es[i] as usize];
                if nd.op == Op::Const {
                    s[off + i] = 0;
                    o.data[off + i] = nd.k as u8;
                } else {
                    s[off + i] = es[i];
                }
            }
            return Ok(());
        }
        if let Some(s) = &mut o.sym {
            s[off..off + n].fill(0);
        }
        let d = &mut o.data;
        match n {
            8 => d[off..off + 8].copy_from_slice(&v.c.to_le_bytes()),
            1 => d[off] = v.c as u8,
            4 => d[off..off + 4].copy_from_slice(&(v.c as u32).to_le_bytes()),
            _ => d[off..off + n].copy_from_slice(&v.c.to_le_bytes()[..n]),
        }
        Ok(())
    }

    fn addr(&mut self, st: &mut State, p: V) -> R<u64> {
        self.concretize(st, p, 64)
    }

    fn memmove(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = ((s >> 32) as u32, (s & 0xffff_ffff) as usize);
        let (di, dof) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let (bytes, syms) = match st.mem.obj(si) {
            Some(o) if so + n <= o.data.len() => (
                o.data[so..so + n].to_vec(),
                o.sym
                    .as_ref()
                    .map(|x| x[so..so + n].to_vec())
                    .filter(|x| x.iter().any(|&e| e != 0)),
            ),
            _ => return Err(self.bad_access(st, "copy from", s, n as u64)),
        };
        match st.mem.obj_mut(di) {
            Some(o) if dof + n <= o.data.len() => {
                o.data[dof..dof + n].copy_from_slice(&bytes);
                match syms {
                    Some(x) => {
                        let len = o.data.len();
                        o.sym.get_or_insert_with(|| vec![0; len])[dof..dof + n].copy_from_slice(&x)
                    }
                    None => {
                        if let Some(y) = &mut o.sym {
                            y[dof..dof + n].fill(0)
                        }
                    }
                }
                Ok(())
            }
            _ => Err(self.bad_access(st, "copy to", d, n as u64)),
        }
    }

    fn byte(&mut self, st: &mut State, p: u64) -> R<V> {
        self.load(st, V::c(p), 8)
    }

    // -------------------------------------------------------------- calls

    fn push_frame(&mut self, st: &mut State, f: u32, args: &[V], dst: u32, ndst: u32) -> R<()> {
        let func = match &self.prog.funcs[f as usize] {
            Some(x) => x,
            None => {
                return fatal(format!(
                    "call of undefined {}",
                    self.prog.func_names[f as usize]
                ))
            }
        };
        // a frame takes at least its objects, the return address and some saved registers
        st.stack += func.frame_size as u64 + 64;
        self.stats.max_stack = self.stats.max_stack.max(st.stack);
        if st.frames.len() > self.cfg.max_depth || st.stack > self.cfg.max_stack {
            return Err(End::Fail("stack overflow".into()));
        }
        self.funcs[f as usize] = true;
        let base = st.regs.len();
        st.regs.resize(base + func.nslots as usize, V::c(0));
        st.regs[base..base + args.len()].copy_from_slice(args);
        let obj = if func.frame_size > 0 {
            st.mem.alloc(func.frame_size as usize, 1)
        } else {
            0
        };
        st.frames.push(Frame {
            func: f,
            pc: 0,
            base: base as u32,
            obj,
            dst,
            ndst,
        });
        Ok(())
    }

    // -------------------------------------------------------------- main loop

    fn exec(&mut self, st: &mut State) -> End {
        loop {
            match self.exec_frame(st) {
                Ok(Sig::Next) => {}
                Ok(Sig::End(e)) => return e,
                Err(e) => return e,
            }
        }
    }

    /// run until the active frame changes
    fn exec_frame(&mut self, st: &mut State) -> R<Sig> {
        let prog: &'p Program = self.prog;
        let fr = *st.frames.last().unwrap();
        let func: &'p Func = prog.funcs[fr.func as usize].as_ref().unwrap();
        let base = fr.base as usize;
        let mut pc = fr.pc as usize;
        let code: &'p [Ins] = &func.code;
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Opd::S(i) => st.regs[base + i as usize],
                    Opd::C(c) => V::c(c),
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[base + $d as usize] = v;
            }};
        }
        // before anything that may fork, the frame must hold the current pc
        macro_rules! sync {
            () => {
                st.frames.last_mut().unwrap().pc = pc as u32
            };
        }
        macro_rules! goto {
            ($edge:expr) => {{
                let e = &func.edges[$edge as usize];
                if e.overlap {
                    let vals: Vec<V> = e.copies.iter().map(|(_, o)| get!(*o)).collect();
                    for ((d, _), v) in e.copies.iter().zip(vals) {
                        set!(*d, v);
                    }
                } else {
                    for (d, o) in e.copies.iter() {
                        let v = get!(*o);
                        set!(*d, v);
                    }
                }
                pc = e.target as usize;
                if self.cfg.stats_blocks && func.interesting {
                    *self.blocks.entry((fr.func, pc as u32)).or_default() += 1;
                }
                if st.ins > self.cfg.max_ins {
                    return Err(End::Fail(
                        "no termination within the instruction budget".into(),
                    ));
                }
            }};
        }
        loop {
            let ins = &code[pc];
            st.ins += 1;
            match ins {
                Ins::Bin { op, w, dst, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    if x.e | y.e == 0 {
                        let m = mask(*w);
                        let (p, q) = (x.c, y.c);
                        let r = match op {
                            Bin::Add => p.wrapping_add(q),
                            Bin::Sub => p.wrapping_sub(q),
                            Bin::Mul => p.wrapping_mul(q),
                            Bin::And => p & q,
                            Bin::Or => p | q,
                            Bin::Xor => p ^ q,
                            Bin::Shl => {
                                if q >= *w as u64 {
                                    0
                                } else {
                                    p << q
                                }
                            }
                            Bin::LShr => {
                                if q >= *w as u64 {
                                    0
                                } else {
                                    p >> q
                                }
                            }
                            Bin::AShr => (sext(p, *w) >> q.min(*w as u64 - 1)) as u64,
                            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                                if q == 0 {
                                    return Err(End::Fail("division by zero".into()));
                                }
                                match op {
                                    Bin::UDiv => p / q,
                                    Bin::URem => p % q,
                                    Bin::SDiv => sext(p, *w).wrapping_div(sext(q, *w)) as u64,
                                    _ => sext(p, *w).wrapping_rem(sext(q, *w)) as u64,
                                }
                            }
                        };
                        set!(*dst, V::c(r & m));
                    } else {
                        let r = self.ar.bin(*op, *w, x, y);
                        set!(*dst, r);
                    }
                    pc += 1;
                }
                Ins::Icmp { p, w, dst, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    let r = if x.e | y.e == 0 {
                        let (m, n) = (x.c, y.c);
                        let r = match p {
                            Pred::Eq => m == n,
                            Pred::Ne => m != n,
                            Pred::Ugt => m > n,
                            Pred::Uge => m >= n,
                            Pred::Ult => m < n,
                            Pred::Ule => m <= n,
                            Pred::Sgt => sext(m, *w) > sext(n, *w),
                            Pred::Sge => sext(m, *w) >= sext(n, *w),
                            Pred::Slt => sext(m, *w) < sext(n, *w),
                            Pred::Sle => sext(m, *w) <= sext(n, *w),
                        };
                        V::c(r as u64)
                    } else {
                        self.ar.icmp(*p, *w, x, y)
                    };
                    set!(*dst, r);
                    pc += 1;
                }
                Ins::Load { dst, w, p } => {
                    let a = get!(*p);
                    if a.e != 0 {
                        sync!();
                    }
                    let v = self.load(st, a, *w)?;
                    set!(*dst, v);
                    pc += 1;
                }
                Ins::Store { w, v, p } => {
                    let a = get!(*p);
                    let x = get!(*v);
                    if a.e != 0 {
                        sync!();
                    }
                    self.store(st, a, *w, x)?;
                    pc += 1;
                }
                Ins::LoadN { dst, parts, p } => {
                    let mut a = get!(*p);
                    if a.e != 0 {
                        sync!();
                        a = V::c(self.addr(st, a)?);
                    }
                    for (i, (off, w)) in parts.iter().enumerate() {
                        let v = self.load(st, V::c(a.c + *off as u64), *w)?;
                        set!(*dst + i as u32, v);
                    }
                    pc += 1;
                }
                Ins::StoreN { parts, v, p } => {
                    let mut a = get!(*p);
                    if a.e != 0 {
                        sync!();
                        a = V::c(self.addr(st, a)?);
                    }
                    for (i, (off, w)) in parts.iter().enumerate() {
                        let x = get!(v[i]);
                        self.store(st, V::c(a.c + *off as u64), *w, x)?;
                    }
                    pc += 1;
                }
                Ins::Gep {
                    dst,
                    base: b,
                    off,
                    terms,
                } => {
                    let mut r = get!(*b);
                    if *off != 0 {
                        r = if r.e == 0 {
                            V::c(r.c.wrapping_add(*off as u64))
                        } else {
                            self.ar.bin(Bin::Add, 64, r, V::c(*off as u64))
                        };
                    }
                    for (o, w, scale) in terms.iter() {
                        let x = get!(*o);
                        let t = if x.e == 0 {
                            V::c((sext(x.c, *w)).wrapping_mul(*scale) as u64)
                        } else {
                            let e = self.ar.sxt(x.e, 64);
                            let e = self.ar.v(e);
                            self.ar.bin(Bin::Mul, 64, e, V::c(*scale as u64))
                        };
                        r = if r.e | t.e == 0 {
                            V::c(r.c.wrapping_add(t.c))
                        } else {
                            self.ar.bin(Bin::Add, 64, r, t)
                        };
                    }
                    set!(*dst, r);
                    pc += 1;
                }
                Ins::Br(e) => goto!(*e),
                Ins::CondBr { c, t, f } => {
                    let v = get!(*c);
                    let b = if v.e == 0 {
                        v.c & 1 == 1
                    } else {
                        sync!();
                        self.decide(st, v.e)?
                    };
                    goto!(if b { *t } else { *f });
                }
                Ins::Switch { w, v, cases, def } => {
                    let x = get!(*v);
                    let mut hit = *def;
                    if x.e == 0 {
                        for (c, e) in cases.iter() {
                            if *c & mask(*w) == x.c {
                                hit = *e;
                                break;
                            }
                        }
                    } else {
                        sync!();
                        // one decision per distinct destination
                        let mut groups: Vec<(u32, u32)> = vec![]; // edge, cond
                        for (c, e) in cases.iter() {
                            let k = self.ar.cst(*w, *c);
                            let q = self.ar.eq(x.e, k);
                            let ed = &func.edges[*e as usize];
                            let g = groups.iter().position(|(g, _)| {
                                let o = &func.edges[*g as usize];
                                o.target == ed.target && o.copies == ed.copies
                            });
                            match g {
                                Some(i) => {
                                    let o = groups[i].1;
                                    groups[i].1 = self.ar.logic(Op::Or, 1, o, q);
                                }
                                None => groups.push((*e, q)),
                            }
                        }
                        for (e, q) in groups {
                            if self.decide(st, q)? {
                                hit = e;
                                break;
                            }
                        }
                    }
                    goto!(hit);
                }
                Ins::Cast { k, fw, tw, dst, a } => {
                    let x = get!(*a);
                    let r = if x.e == 0 {
                        V::c(match k {
                            Cast::Trunc => x.c & mask(*tw),
                            Cast::ZExt => x.c,
                            Cast::SExt => sext(x.c, *fw) as u64 & mask(*tw),
                        })
                    } else {
                        let e = match k {
                            Cast::Trunc => self.ar.extract(x.e, 0, *tw),
                            Cast::ZExt => self.ar.zext(x.e, *tw),
                            Cast::SExt => self.ar.sxt(x.e, *tw),
                        };
                        self.ar.v(e)
                    };
                    set!(*dst, r);
                    pc += 1;
                }
                Ins::Copy { dst, src } => {
                    // sources never overlap the destination (SSA)
                    for (i, o) in src.iter().enumerate() {
                        let v = get!(*o);
                        set!(*dst + i as u32, v);
                    }
                    pc += 1;
                }
                Ins::Select { dst, c, ws, a, b } => {
                    let cv = get!(*c);
                    for i in 0..ws.len() {
                        let (x, y) = (get!(a[i]), get!(b[i]));
                        let r = if cv.e == 0 {
                            if cv.c & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        } else {
                            let p = self.ar.node(x, ws[i]);
                            let q = self.ar.node(y, ws[i]);
                            let e = match self.lookup(st, cv.e) {
                                Some(true) => p,
                                Some(false) => q,
                                None => self.ar.ite(cv.e, p, q),
                            };
                            self.ar.v(e)
                        };
                        set!(*dst + i as u32, r);
                    }
                    pc += 1;
                }
                Ins::Alloca { dst, off } => {
                    set!(*dst, V::c((fr.obj as u64) << 32 | *off as u64));
                    pc += 1;
                }
                Ins::Call { f, dst, ndst, args } => {
                    if let Some(k) = prog.func_ext[*f as usize] {
                        sync!();
                        // Debug hooks: skip the body when the value is symbolic
                        if self.debug_hook(
                            st,
                            k,
                            &args.iter().map(|o| get!(*o)).collect::<Vec<_>>(),
                        )? {
                            for i in 0..*ndst {
                                set!(*dst + i, V::c(0));
                            }
                            pc += 1;
                            continue;
                        }
                    }
                    let mut av = [V::c(0); 24];
                    let n = args.len();
                    if n > 24 {
                        return fatal("too many arguments");
                    }
                    for i in 0..n {
                        av[i] = get!(args[i]);
                    }
                    st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                    self.push_frame(st, *f, &av[..n], (base + *dst as usize) as u32, *ndst)?;
                    return Ok(Sig::Next);
                }
                Ins::CallInd { p, dst, ndst, args } => {
                    let pv = get!(*p);
                    sync!();
                    let a = if pv.e == 0 { pv.c } else { self.addr(st, pv)? };
                    let f = (a >> 32).wrapping_sub(FUNC_BASE) as usize;
                    if a & 0xffff_ffff != 0 || f >= prog.funcs.len() {
                        return Err(self.bad_access(st, "call", a, 0));
                    }
                    let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                    match prog.func_ext[f] {
                        Some(Ext::DebugChar) | Some(Ext::DebugStr) | Some(Ext::HashOne) | None => {
                            if let Some(k) = prog.func_ext[f] {
                                if self.debug_hook(st, k, &av)? {
                                    for i in 0..*ndst {
                                        set!(*dst + i, V::c(0));
                                    }
                                    pc += 1;
                                    continue;
                                }
                            }
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.push_frame(
                                st,
                                f as u32,
                                &av,
                                (base + *dst as usize) as u32,
                                *ndst,
                            )?;
                            return Ok(Sig::Next);
                        }
                        Some(k) => {
                            let name = prog.func_names[f].clone();
                            let r = self.ext(st, k, &name, &av)?;
                            for (i, v) in r.iter().enumerate().take(*ndst as usize) {
                                set!(*dst + i as u32, *v);
                            }
                            pc += 1;
                        }
                    }
                }
                Ins::Ret { v } => {
                    let n = v.len().min(fr.ndst as usize);
                    let mut out = [V::c(0); 16];
                    if n > 16 {
                        return fatal("too many results");
                    }
                    for i in 0..n {
                        out[i] = get!(v[i]);
                    }
                    if fr.obj != 0 {
                        st.mem.free(fr.obj);
                    }
                    if n == 1
                        && out[0].e != 0
                        && prog.func_ext[fr.func as usize] == Some(Ext::HashOne)
                    {
                        self.sh.sym_hash.store(true, Ordering::Relaxed);
                        self.halt();
                        return Ok(Sig::End(End::Assume));
                    }
                    st.regs.truncate(base);
                    st.frames.pop();
                    st.stack -= func.frame_size as u64 + 64;
                    if st.frames.is_empty() {
                        return Ok(Sig::End(End::Done));
                    }
                    for i in 0..n {
                        st.regs[fr.dst as usize + i] = out[i];
                    }
                    return Ok(Sig::Next);
                }
                Ins::Intr { k, dst, w, args } => {
                    sync!();
                    let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                    let (r, n) = self.intr(st, *k, *w, &av)?;
                    for i in 0..n {
                        set!(*dst + i as u32, r[i]);
                    }
                    pc += 1;
                }
                Ins::Ext {
                    k,
                    name,
                    dst,
                    ndst,
                    args,
                } => {
                    sync!();
                    let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                    let r = self.ext(st, *k, name, &av)?;
                    for (i, v) in r.iter().enumerate().take(*ndst as usize) {
                        set!(*dst + i as u32, *v);
                    }
                    pc += 1;
                }
                Ins::Bitcast { dst, dws, src, sws } => {
                    let mut bits: Vec<u32> = vec![]; // expressions or 0 per source with value
                    let _ = &mut bits;
                    // concatenate all the sources (low first) into bytes of bits
                    let all_c = src.iter().all(|o| get!(*o).e == 0);
                    if all_c {
                        let mut bv: Vec<bool> = vec![];
                        for (o, w) in src.iter().zip(sws.iter()) {
                            let c = get!(*o).c;
                            for i in 0..*w {
                                bv.push(c >> i & 1 == 1);
                            }
                        }
                        let mut p = 0;
                        for (i, w) in dws.iter().enumerate() {
                            let mut c = 0u64;
                            for j in 0..*w {
                                if bv[p] {
                                    c |= 1 << j;
                                }
                                p += 1;
                            }
                            set!(*dst + i as u32, V::c(c));
                        }
                    } else {
                        // symbolic: only shapes where one side has a single slot of <= 64 bits
                        let vals: Vec<V> = src.iter().map(|o| get!(*o)).collect();
                        if dws.len() == 1 && dws[0] <= 64 {
                            let mut acc = 0;
                            for (v, w) in vals.iter().zip(sws.iter()).rev() {
                                let n = self.ar.node(*v, *w);
                                acc = if acc == 0 { n } else { self.ar.concat(acc, n) };
                            }
                            let r = self.ar.v(acc);
                            set!(*dst, r);
                        } else if sws.len() == 1 {
                            let n = self.ar.node(vals[0], sws[0]);
                            let mut lo = 0;
                            for (i, w) in dws.iter().enumerate() {
                                let e = self.ar.extract(n, lo, *w);
                                lo += *w;
                                let r = self.ar.v(e);
                                set!(*dst + i as u32, r);
                            }
                        } else {
                            return fatal("bitcast of symbolic vector");
                        }
                    }
                    pc += 1;
                }
                Ins::ExtractElemDyn {
                    dst,
                    es,
                    n,
                    src,
                    idx,
                } => {
                    let iv = get!(*idx);
                    sync!();
                    let i = self.concretize(st, iv, 64)?;
                    if i >= *n as u64 {
                        return fatal("extractelement index");
                    }
                    for j in 0..*es {
                        let v = get!(src[(i as u32 * *es + j) as usize]);
                        set!(*dst + j, v);
                    }
                    pc += 1;
                }
                Ins::InsertElemDyn {
                    dst,
                    es,
                    n,
                    src,
                    v,
                    idx,
                } => {
                    let iv = get!(*idx);
                    sync!();
                    let i = self.concretize(st, iv, 64)?;
                    if i >= *n as u64 {
                        return fatal("insertelement index");
                    }
                    for j in 0..src.len() as u32 {
                        let k = j / *es;
                        let x = if k as u64 == i {
                            get!(v[(j % *es) as usize])
                        } else {
                            get!(src[j as usize])
                        };
                        set!(*dst + j, x);
                    }
                    pc += 1;
                }
                Ins::AtomicRmw { op, w, dst, p, v } => {
                    let a = get!(*p);
                    let x = get!(*v);
                    if a.e != 0 {
                        return fatal("atomicrmw on symbolic address");
                    }
                    let old = self.load(st, a, *w)?;
                    let new = match op {
                        0 => x,
                        1 => self.binv(Bin::Add, *w, old, x),
                        2 => self.binv(Bin::Sub, *w, old, x),
                        3 => self.binv(Bin::And, *w, old, x),
                        4 => self.binv(Bin::Or, *w, old, x),
                        5 => self.binv(Bin::Xor, *w, old, x),
                        _ => return fatal("atomicrmw op"),
                    };
                    self.store(st, a, *w, new)?;
                    set!(*dst, old);
                    pc += 1;
                }
                Ins::CmpXchg { w, dst, p, c, n } => {
                    let a = get!(*p);
                    let (x, y) = (get!(*c), get!(*n));
                    let old = self.load(st, a, *w)?;
                    if old.e | x.e != 0 {
                        return fatal("cmpxchg on symbolic value");
                    }
                    let ok = old.c == x.c;
                    if ok {
                        self.store(st, a, *w, y)?;
                    }
                    set!(*dst, old);
                    set!(*dst + 1, V::c(ok as u64));
                    pc += 1;
                }
                Ins::Unreachable => return Err(End::Fail("unreachable code reached".into())),
                Ins::BadOp(s) => return fatal(format!("unsupported: {}", s)),
            }
        }
    }

    fn binv(&mut self, op: Bin, w: u32, a: V, b: V) -> V {
        let r = self.ar.bin(op, w, a, b);
        r
    }

    /// true when the call is to be skipped (Debug output of a symbolic char / str)
    fn debug_hook(&mut self, st: &mut State, k: Ext, a: &[V]) -> R<bool> {
        match k {
            // every hash is a possible hash: maps must not depend on it
            Ext::HashOne => Ok(self.cfg.const_hash),
            Ext::DebugChar => {
                let v = self.load(st, a[0], 32)?;
                Ok(v.e != 0)
            }
            Ext::DebugStr => {
                if a[1].e != 0 {
                    return Ok(true);
                }
                let (p, n) = (a[0], a[1].c);
                if p.e != 0 {
                    return Ok(true);
                }
                for i in 0..n {
                    if self.load(st, V::c(p.c + i), 8)?.e != 0 {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            _ => Ok(false),
        }
    }

    fn conc_all(&mut self, st: &mut State, a: &[V]) -> R<Vec<u64>> {
        let mut v = vec![];
        for x in a {
            v.push(self.concretize(st, *x, 64)?);
        }
        Ok(v)
    }

    fn intr(&mut self, st: &mut State, k: Intr, w: u32, a: &[V]) -> R<([V; 16], usize)> {
        let mut out = [V::c(0); 16];
        let one = |v: V| {
            let mut o = [V::c(0); 16];
            o[0] = v;
            (o, 1)
        };
        let conc = a.iter().all(|v| v.e == 0);
        let m = mask(w);
        Ok(match k {
            Intr::Memcpy | Intr::Memmove => {
                let n = self.concretize(st, a[2], 64)?;
                if n == 0 {
                    return Ok((out, 0));
                }
                let d = self.concretize(st, a[0], 64)?;
                let s = self.concretize(st, a[1], 64)?;
                self.memmove(st, d, s, n as usize)?;
                (out, 0)
            }
            Intr::Memset => {
                let n = self.concretize(st, a[2], 64)?;
                if n == 0 {
                    return Ok((out, 0));
                }
                let d = self.concretize(st, a[0], 64)?;
                for i in 0..n {
                    self.store(st, V::c(d + i), 8, a[1])?;
                }
                (out, 0)
            }
            Intr::Expect | Intr::TlsAddr => one(a[0]),
            Intr::IsConstant => one(V::c(0)),
            Intr::Trap => return Err(End::Fail("panic: trap".into())),
            Intr::PtrMask => one(self.binv(Bin::And, 64, a[0], a[1])),
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let p = match k {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if conc {
                    let (x, y) = (a[0].c, a[1].c);
                    let t = match k {
                        Intr::Umin => x < y,
                        Intr::Umax => x > y,
                        Intr::Smin => sext(x, w) < sext(y, w),
                        _ => sext(x, w) > sext(y, w),
                    };
                    one(if t { a[0] } else { a[1] })
                } else {
                    let c = self.ar.icmp(p, w, a[0], a[1]);
                    let c = self.ar.node(c, 1);
                    let x = self.ar.node(a[0], w);
                    let y = self.ar.node(a[1], w);
                    let r = self.ar.ite(c, x, y);
                    one(self.ar.v(r))
                }
            }
            Intr::Abs if conc => one(V::c(sext(a[0].c, w).wrapping_abs() as u64 & m)),
            Intr::Ctpop if conc => one(V::c(a[0].c.count_ones() as u64)),
            Intr::Cttz if conc => one(V::c(if a[0].c == 0 {
                w as u64
            } else {
                a[0].c.trailing_zeros() as u64
            })),
            Intr::Ctlz if conc => one(V::c(a[0].c.leading_zeros() as u64 - (64 - w as u64))),
            Intr::Bswap if conc => one(V::c(a[0].c.swap_bytes() >> (64 - w))),
            Intr::Bitreverse if conc => one(V::c(a[0].c.reverse_bits() >> (64 - w))),
            Intr::Fshl | Intr::Fshr if a[2].e == 0 => {
                let s = a[2].c % w as u64;
                let (hi, lo) = (a[0], a[1]);
                let s = if k == Intr::Fshl { s } else { w as u64 - s };
                // (hi:lo) << s, top word
                if s == 0 {
                    return Ok(one(hi));
                }
                if s == w as u64 {
                    return Ok(one(lo));
                }
                if conc {
                    one(V::c(((hi.c << s) | (lo.c >> (w as u64 - s))) & m))
                } else {
                    let x = self.ar.bin(Bin::Shl, w, hi, V::c(s));
                    let y = self.ar.bin(Bin::LShr, w, lo, V::c(w as u64 - s));
                    one(self.ar.bin(Bin::Or, w, x, y))
                }
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                if conc {
                    let (x, y) = (a[0].c as u128, a[1].c as u128);
                    let (sx, sy) = (sext(a[0].c, w) as i128, sext(a[1].c, w) as i128);
                    let fits = |v: i128| sext(v as u64 & m, w) as i128 == v;
                    let (r, o) = match k {
                        Intr::UaddO => ((x + y) as u64, x + y > m as u128),
                        Intr::UsubO => ((x.wrapping_sub(y)) as u64, x < y),
                        Intr::UmulO => ((x.wrapping_mul(y)) as u64, x * y > m as u128),
                        Intr::SaddO => ((sx + sy) as u64, !fits(sx + sy)),
                        Intr::SsubO => ((sx - sy) as u64, !fits(sx - sy)),
                        _ => ((sx * sy) as u64, !fits(sx * sy)),
                    };
                    out[0] = V::c(r & m);
                    out[1] = V::c(o as u64);
                } else {
                    match k {
                        Intr::UaddO => {
                            let r = self.ar.bin(Bin::Add, w, a[0], a[1]);
                            out[0] = r;
                            // interval shortcut happens inside icmp
                            out[1] = {
                                let x = self.ar.node(a[0], w);
                                let y = self.ar.node(a[1], w);
                                let (mx, my) =
                                    (self.ar.meta[x as usize].umax, self.ar.meta[y as usize].umax);
                                if mx as u128 + my as u128 <= m as u128 {
                                    V::c(0)
                                } else {
                                    self.ar.icmp(Pred::Ult, w, r, a[0])
                                }
                            };
                        }
                        Intr::UsubO => {
                            out[0] = self.ar.bin(Bin::Sub, w, a[0], a[1]);
                            out[1] = self.ar.icmp(Pred::Ult, w, a[0], a[1]);
                        }
                        Intr::UmulO => {
                            let x = self.ar.node(a[0], w);
                            let y = self.ar.node(a[1], w);
                            let (mx, my) =
                                (self.ar.meta[x as usize].umax, self.ar.meta[y as usize].umax);
                            if mx as u128 * my as u128 <= m as u128 {
                                out[0] = self.ar.bin(Bin::Mul, w, a[0], a[1]);
                                out[1] = V::c(0);
                            } else {
                                // x > max / y (never for y = 0, where the quotient is all ones)
                                out[0] = self.ar.bin(Bin::Mul, w, a[0], a[1]);
                                let (x, y) = if a[0].is_c() {
                                    (a[1], a[0])
                                } else {
                                    (a[0], a[1])
                                };
                                out[1] = if y.is_c() {
                                    self.ar.icmp(Pred::Ugt, w, x, V::c(m / y.c))
                                } else {
                                    let q = self.ar.bin(Bin::UDiv, w, V::c(m), y);
                                    self.ar.icmp(Pred::Ugt, w, x, q)
                                };
                            }
                        }
                        Intr::SaddO | Intr::SsubO => {
                            let op = if k == Intr::SaddO { Bin::Add } else { Bin::Sub };
                            let r = self.ar.bin(op, w, a[0], a[1]);
                            // the sign of the result is neither that of .. nor that of ..
                            let p = self.ar.bin(
                                Bin::Xor,
                                w,
                                a[0],
                                if k == Intr::SaddO { r } else { a[1] },
                            );
                            let q = self.ar.bin(
                                Bin::Xor,
                                w,
                                if k == Intr::SaddO { a[1] } else { a[0] },
                                r,
                            );
                            let t = self.ar.bin(Bin::And, w, p, q);
                            out[0] = r;
                            out[1] = self.ar.icmp(Pred::Slt, w, t, V::c(0));
                        }
                        _ => return fatal("smul.with.overflow on symbolic values"),
                    }
                }
                (out, 2)
            }
            Intr::UaddSat if conc => {
                one(V::c((a[0].c as u128 + a[1].c as u128).min(m as u128) as u64))
            }
            Intr::UsubSat if conc => one(V::c(a[0].c.saturating_sub(a[1].c))),
            Intr::UaddSat | Intr::UsubSat => {
                let (r, c, sat) = if k == Intr::UaddSat {
                    let r = self.ar.bin(Bin::Add, w, a[0], a[1]);
                    (r, self.ar.icmp(Pred::Ult, w, r, a[0]), m)
                } else {
                    let r = self.ar.bin(Bin::Sub, w, a[0], a[1]);
                    (r, self.ar.icmp(Pred::Ult, w, a[0], a[1]), 0)
                };
                let c = self.ar.node(c, 1);
                let s = self.ar.cst(w, sat);
                let r = self.ar.node(r, w);
                let x = self.ar.ite(c, s, r);
                one(self.ar.v(x))
            }
            Intr::Ucmp | Intr::Scmp => {
                let p = if k == Intr::Ucmp {
                    Pred::Ult
                } else {
                    Pred::Slt
                };
                let lt = self.ar.icmp(p, w, a[0], a[1]);
                let gt = self.ar.icmp(p, w, a[1], a[0]);
                // result is i8 (or the width of the destination); the value is -1/0/1
                let (lt, gt) = (self.ar.node(lt, 1), self.ar.node(gt, 1));
                let (z, p1, m1) = (self.ar.cst(8, 0), self.ar.cst(8, 1), self.ar.cst(8, 255));
                let x = self.ar.ite(gt, p1, z);
                let x = self.ar.ite(lt, m1, x);
                one(self.ar.v(x))
            }
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let op = match k {
                    Intr::ReduceOr => Bin::Or,
                    Intr::ReduceAnd => Bin::And,
                    _ => Bin::Add,
                };
                let mut r = a[0];
                for v in &a[1..] {
                    r = self.ar.bin(op, w, r, *v);
                }
                one(r)
            }
            Intr::ReduceUmax if conc => one(V::c(a.iter().map(|v| v.c).max().unwrap())),
            Intr::Ctlz => {
                let x = a[0].e;
                let (lo, hi) = (self.ar.meta[x as usize].umin, self.ar.meta[x as usize].umax);
                let bits = |v: u64| 64 - v.leading_zeros();
                let mut acc = self.ar.cst(w, (w - bits(hi)) as u64);
                // x < 2^k for ever smaller k
                for k in (bits(lo)..bits(hi)).rev() {
                    let bound = self.ar.cst(w, 1u64 << k);
                    let c = self.ar.ult(x, bound);
                    let v = self.ar.cst(w, (w - k) as u64);
                    acc = self.ar.ite(c, v, acc);
                }
                // lengths derive from it: fork on the result
                let v = self.ar.v(acc);
                one(V::c(self.concretize(st, v, w)?))
            }
            Intr::Ctpop | Intr::Cttz | Intr::Bswap | Intr::Abs | Intr::Bitreverse => {
                let c = self.concretize(st, a[0], w)?;
                let mut b = a.to_vec();
                b[0] = V::c(c);
                return self.intr(st, k, w, &b);
            }
            _ => return fatal(format!("intrinsic {:?} on symbolic values", k)),
        })
    }

    fn pick(&mut self, w: u32, c: V, a: V, b: V) -> V {
        if c.is_c() {
            return if c.c != 0 { a } else { b };
        }
        let (c, a, b) = (self.ar.node(c, 1), self.ar.node(a, w), self.ar.node(b, w));
        let r = self.ar.ite(c, a, b);
        self.ar.v(r)
    }

    fn widen1(&mut self, b: V) -> V {
        self.pick(64, b, V::c(1), V::c(0))
    }

    /// x + y of two words, and the carry (0 or 1 in 64 bits)
    fn add_carry(&mut self, x: V, y: V) -> (V, V) {
        let r = self.ar.bin(Bin::Add, 64, x, y);
        let c = self.ar.icmp(Pred::Ult, 64, r, x);
        (r, self.widen1(c))
    }

    /// 128-bit arithmetic on two words, low one first
    fn wide_bin(&mut self, w: u32, op: u64, x: (V, V), y: (V, V)) -> R<Vec<V>> {
        let ops = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Shl, Bin::LShr, Bin::AShr];
        let b = |s: &mut Self, op: Bin, x: V, y: V| s.ar.bin(op, 64, x, y);
        let (lo, hi) = match ops.iter().find(|o| **o as u64 == op).copied() {
            Some(Bin::Add) => {
                let (lo, c) = self.add_carry(x.0, y.0);
                let h = b(self, Bin::Add, x.1, y.1);
                (lo, b(self, Bin::Add, h, c))
            }
            Some(Bin::Sub) => {
                let c = self.ar.icmp(Pred::Ult, 64, x.0, y.0);
                let c = self.widen1(c);
                let lo = b(self, Bin::Sub, x.0, y.0);
                let h = b(self, Bin::Sub, x.1, y.1);
                (lo, b(self, Bin::Sub, h, c))
            }
            Some(Bin::Mul) => {
                let half = |s: &mut Self, v: V| {
                    (
                        b(s, Bin::And, v, V::c(0xffff_ffff)),
                        b(s, Bin::LShr, v, V::c(32)),
                    )
                };
                let (a0, a1) = half(self, x.0);
                let (b0, b1) = half(self, y.0);
                let p00 = b(self, Bin::Mul, a0, b0);
                let p01 = b(self, Bin::Mul, a0, b1);
                let p10 = b(self, Bin::Mul, a1, b0);
                let p11 = b(self, Bin::Mul, a1, b1);
                // the middle words with the carry of the lowest
                let m = b(self, Bin::LShr, p00, V::c(32));
                let (l01, h01) = half(self, p01);
                let (l10, h10) = half(self, p10);
                let m = b(self, Bin::Add, m, l01);
                let m = b(self, Bin::Add, m, l10);
                let mh = b(self, Bin::LShr, m, V::c(32));
                let h = b(self, Bin::Add, p11, mh);
                let h = b(self, Bin::Add, h, h01);
                let h = b(self, Bin::Add, h, h10);
                let c1 = b(self, Bin::Mul, x.0, y.1);
                let c2 = b(self, Bin::Mul, x.1, y.0);
                let h = b(self, Bin::Add, h, c1);
                (b(self, Bin::Mul, x.0, y.0), b(self, Bin::Add, h, c2))
            }
            Some(o @ Bin::Shl) | Some(o @ Bin::LShr) | Some(o @ Bin::AShr)
                if w == 128 || o != Bin::AShr =>
            {
                // the amount is below the width, else the result is poison
                let t = b(self, Bin::And, y.0, V::c(63));
                let rest = b(self, Bin::Xor, t, V::c(63));
                let big = self.ar.icmp(Pred::Uge, 64, y.0, V::c(64));
                if o == Bin::Shl {
                    let lo = b(self, Bin::Shl, x.0, t);
                    let c = b(self, Bin::LShr, x.0, V::c(1));
                    let c = b(self, Bin::LShr, c, rest);
                    let h = b(self, Bin::Shl, x.1, t);
                    let h = b(self, Bin::Or, h, c);
                    (self.pick(64, big, V::c(0), lo), self.pick(64, big, lo, h))
                } else {
                    let h = b(self, o, x.1, t);
                    let c = b(self, Bin::Shl, x.1, V::c(1));
                    let c = b(self, Bin::Shl, c, rest);
                    let lo = b(self, Bin::LShr, x.0, t);
                    let lo = b(self, Bin::Or, lo, c);
                    let top = if o == Bin::AShr {
                        b(self, Bin::AShr, x.1, V::c(63))
                    } else {
                        V::c(0)
                    };
                    (self.pick(64, big, h, lo), self.pick(64, big, top, h))
                }
            }
            o => return fatal(format!("wide op {:?} on symbolic values", o)),
        };
        let hi = if w < 128 {
            b(self, Bin::And, hi, V::c((1u64 << (w - 64)) - 1))
        } else {
            hi
        };
        Ok(vec![lo, hi])
    }

    fn wide_icmp(&mut self, w: u32, p: u64, x: (V, V), y: (V, V)) -> R<Vec<V>> {
        let all = [
            (Pred::Eq, Pred::Eq),
            (Pred::Ne, Pred::Eq),
            (Pred::Ugt, Pred::Ugt),
            (Pred::Uge, Pred::Ugt),
            (Pred::Ult, Pred::Ult),
            (Pred::Ule, Pred::Ult),
            (Pred::Sgt, Pred::Sgt),
            (Pred::Sge, Pred::Sgt),
            (Pred::Slt, Pred::Slt),
            (Pred::Sle, Pred::Slt),
        ];
        let (p, strict) = *all.iter().find(|q| q.0 as u64 == p).unwrap();
        let same = self.ar.icmp(Pred::Eq, 64, x.1, y.1);
        if strict == Pred::Eq {
            let lo = self.ar.icmp(Pred::Eq, 64, x.0, y.0);
            let r = self.pick(1, same, lo, V::c(0));
            return Ok(vec![if p == Pred::Eq {
                r
            } else {
                self.pick(1, r, V::c(0), V::c(1))
            }]);
        }
        if w < 128 && matches!(strict, Pred::Sgt | Pred::Slt) {
            return fatal("signed comparison of an odd width on symbolic values");
        }
        let low = match p {
            Pred::Ugt | Pred::Sgt => Pred::Ugt,
            Pred::Uge | Pred::Sge => Pred::Uge,
            Pred::Ult | Pred::Slt => Pred::Ult,
            _ => Pred::Ule,
        };
        let hi = self.ar.icmp(strict, 64, x.1, y.1);
        let lo = self.ar.icmp(low, 64, x.0, y.0);
        Ok(vec![self.pick(1, same, lo, hi)])
    }

    fn ext(&mut self, st: &mut State, k: Ext, name: &str, a: &[V]) -> R<Vec<V>> {
        let one = |v: u64| Ok(vec![V::c(v)]);
        match k {
            Ext::Malloc | Ext::Calloc | Ext::Realloc | Ext::PosixMemalign => {
                let c = self.conc_all(st, a)?;
                let size = match k {
                    Ext::Malloc => c[0],
                    Ext::Calloc => c[0].saturating_mul(c[1]),
                    Ext::Realloc => c[1],
                    _ => c[2],
                };
                if size > self.cfg.max_heap || st.mem.live_bytes + size > self.cfg.max_heap {
                    return Err(End::Fail(format!(
                        "memory: allocation limit exceeded ({} bytes)",
                        size
                    )));
                }
                let id = st.mem.alloc(size as usize, 0);
                let p = (id as u64) << 32;
                match k {
                    Ext::Realloc => {
                        let old = c[0];
                        if old != 0 {
                            let n = match st.mem.obj((old >> 32) as u32) {
                                Some(o) if o.kind == 0 && old & 0xffff_ffff == 0 => o.data.len(),
                                _ => return Err(self.bad_access(st, "realloc", old, size)),
                            };
                            self.memmove(st, p, old, n.min(size as usize))?;
                            st.mem.free((old >> 32) as u32);
                        }
                        one(p)
                    }
                    Ext::PosixMemalign => {
                        self.store(st, V::c(c[0]), 64, V::c(p))?;
                        one(0)
                    }
                    _ => one(p),
                }
            }
            Ext::Free => {
                let p = self.concretize(st, a[0], 64)?;
                if p != 0 {
                    match st.mem.obj((p >> 32) as u32) {
                        Some(o) if o.kind == 0 && p & 0xffff_ffff == 0 => {}
                        _ => return Err(self.bad_access(st, "free", p, 0)),
                    }
                    st.mem.free((p >> 32) as u32);
                }
                Ok(vec![])
            }
            Ext::Memcmp => {
                let n = self.concretize(st, a[2], 64)?;
                if n == 0 {
                    return one(0);
                }
                let p = self.concretize(st, a[0], 64)?;
                let q = self.concretize(st, a[1], 64)?;
                let mut xs = vec![];
                let mut sym = false;
                for i in 0..n {
                    let x = self.byte(st, p + i)?;
                    let y = self.byte(st, q + i)?;
                    sym |= x.e | y.e != 0;
                    xs.push((x, y));
                    if !sym && x.c != y.c {
                        // decided by a concrete prefix
                        return one(if x.c < y.c { 0xffff_ffff } else { 1 });
                    }
                }
                if !sym {
                    return one(0);
                }
                if name == "bcmp" {
                    let mut acc = self.ar.cst(1, 1);
                    for (x, y) in xs {
                        let e = self.ar.icmp(Pred::Eq, 8, x, y);
                        let e = self.ar.node(e, 1);
                        acc = self.ar.logic(Op::And, 1, acc, e);
                    }
                    let (z, o) = (self.ar.cst(32, 0), self.ar.cst(32, 1));
                    let r = self.ar.ite(acc, z, o);
                    return Ok(vec![self.ar.v(r)]);
                }
                let mut acc = self.ar.cst(32, 0);
                let (m1, p1) = (self.ar.cst(32, 0xffff_ffff), self.ar.cst(32, 1));
                for (x, y) in xs.into_iter().rev() {
                    let lt = self.ar.icmp(Pred::Ult, 8, x, y);
                    let gt = self.ar.icmp(Pred::Ult, 8, y, x);
                    let (lt, gt) = (self.ar.node(lt, 1), self.ar.node(gt, 1));
                    acc = self.ar.ite(gt, p1, acc);
                    acc = self.ar.ite(lt, m1, acc);
                }
                Ok(vec![self.ar.v(acc)])
            }
            Ext::Strlen => {
                let p = self.concretize(st, a[0], 64)?;
                let mut n = 0;
                loop {
                    let b = self.byte(st, p + n)?;
                    let c = self.concretize(st, b, 8)?;
                    if c == 0 {
                        return one(n);
                    }
                    n += 1;
                }
            }
            Ext::Memchr => {
                let c = self.conc_all(st, a)?;
                for i in 0..c[2] {
                    let b = self.byte(st, c[0] + i)?;
                    let b = self.concretize(st, b, 8)?;
                    if b == c[1] & 0xff {
                        return one(c[0] + i);
                    }
                }
                one(0)
            }
            Ext::MemcpyLib | Ext::MemmoveLib => {
                let c = self.conc_all(st, a)?;
                self.memmove(st, c[0], c[1], c[2] as usize)?;
                one(c[0])
            }
            Ext::MemsetLib => {
                let n = self.concretize(st, a[2], 64)?;
                let d = self.concretize(st, a[0], 64)?;
                let b = if a[1].e == 0 {
                    V::c(a[1].c & 0xff)
                } else {
                    let e = self.ar.extract(a[1].e, 0, 8);
                    self.ar.v(e)
                };
                for i in 0..n {
                    self.store(st, V::c(d + i), 8, b)?;
                }
                one(d)
            }
            Ext::Getrandom => {
                let c = self.conc_all(st, a)?;
                for i in 0..c[1] {
                    self.store(
                        st,
                        V::c(c[0] + i),
                        8,
                        V::c((self.cfg.keys.0 >> (8 * (i % 8))) & 0xff),
                    )?;
                }
                one(c[1])
            }
            Ext::HashKeys => Ok(vec![V::c(self.cfg.keys.0), V::c(self.cfg.keys.1)]),
            Ext::AtExitReg => one(0),
            // ------------------------------------------------------ harness API
            Ext::SymBits | Ext::SymRange => {
                let (lo, hi) = if k == Ext::SymBits {
                    (0, mask(a[0].c as u32))
                } else {
                    let c = self.conc_all(st, &a[..2])?;
                    (c[0], c[1])
                };
                if lo > hi {
                    return Err(End::Assume);
                }
                if lo == hi {
                    st.inputs.push(V::c(lo));
                    return one(lo);
                }
                let w = 64 - hi.leading_zeros();
                let idx = st.vars.len();
                let v = self.ar.var(idx, w, lo, hi);
                st.vars.push(v);
                let m = Rc::make_mut(&mut st.model);
                if m.len() <= idx {
                    m.resize(idx + 1, 0);
                }
                m[idx] = lo;
                let e = self.ar.zext(v, 64);
                st.inputs.push(V { e, c: 0 });
                Ok(vec![V { e, c: 0 }])
            }
            Ext::SymChoice => {
                let n = self.concretize(st, a[0], 64)?;
                if n == 0 {
                    return Err(End::Assume);
                }
                let pick = if n == 1 {
                    0
                } else if let Some(f) = st.forced.take() {
                    st.trace.push(f);
                    f
                } else if st.trace.len() < st.replay.len() {
                    let f = st.replay[st.trace.len()];
                    st.trace.push(f);
                    f
                } else {
                    self.need_model(st)?;
                    for i in (1..n).rev() {
                        let mut ch = st.clone();
                        ch.forced = Some(i);
                        self.stats.forks += 1;
                        self.stack.push_back(ch);
                    }
                    self.donate();
                    st.trace.push(0);
                    0
                };
                st.inputs.push(V::c(pick));
                one(pick)
            }
            Ext::Assume => {
                let c = a[0];
                if c.e == 0 {
                    return if c.c & 1 == 1 {
                        Ok(vec![])
                    } else {
                        Err(End::Assume)
                    };
                }
                match self.lookup(st, c.e) {
                    Some(true) => return Ok(vec![]),
                    Some(false) => return Err(End::Assume),
                    None => {}
                }
                if st.trace.len() < st.replay.len() {
                    st.trace.push(1);
                    self.constrain(st, c.e, true);
                    return Ok(vec![]);
                }
                self.need_model(st)?;
                let m = st.model.clone();
                if self.ar.eval(c.e, &m) & 1 == 0 {
                    match self.query(st, c.e) {
                        Ans::Unsat => return Err(End::Assume),
                        Ans::Sat(v) => Self::apply_model(st, &v),
                    }
                }
                st.trace.push(1);
                self.constrain(st, c.e, true);
                Ok(vec![])
            }
            Ext::Check => {
                let (c, id) = (a[0], a[1].c);
                self.stats.checks += 1;
                *self.stats.checks_by_id.entry(id).or_default() += 1;
                if c.e == 0 {
                    return if c.c & 1 == 1 {
                        Ok(vec![])
                    } else {
                        Err(End::Fail(format!("check {}", id)))
                    };
                }
                self.stats.sym_checks += 1;
                match self.lookup(st, c.e) {
                    Some(true) => return Ok(vec![]),
                    Some(false) => return Err(End::Fail(format!("check {}", id))),
                    None => {}
                }
                if st.trace.len() < st.replay.len() {
                    st.trace.push(1);
                    self.constrain(st, c.e, true);
                    return Ok(vec![]);
                }
                self.need_model(st)?;
                let neg = self.ar.not(c.e);
                if let Ans::Sat(v) = self.query(st, neg) {
                    let mut bad = st.clone();
                    self.constrain(&mut bad, c.e, false);
                    Self::apply_model(&mut bad, &v);
                    self.report(&bad, End::Fail(format!("check {}", id)));
                    // go on with the side on which the assertion holds
                    match self.query(st, c.e) {
                        Ans::Unsat => return Err(End::Assume),
                        Ans::Sat(v) => Self::apply_model(st, &v),
                    }
                    self.constrain(st, c.e, true);
                } else {
                    self.learn(st, c.e, true);
                }
                st.trace.push(1);
                Ok(vec![])
            }
            Ext::Reach => {
                let id = a[0].c as u32;
                if !st.reach.contains(&id) {
                    st.reach.push(id);
                }
                Ok(vec![])
            }
            Ext::Digest => {
                st.digests.push(a[0]);
                Ok(vec![])
            }
            Ext::Concretize => {
                let v = self.concretize(st, a[0], 64)?;
                one(v)
            }
            Ext::Param => one(self.cfg.params.get(a[0].c as usize).copied().unwrap_or(0)),
            Ext::Panic => Err(End::Fail(format!("panic: {}", demangle(name)))),
            Ext::RetZero => match name {
                "wide-bin" => {
                    let w = a[0].c;
                    if w > 128 {
                        return fatal("arithmetic on more than 128 bits");
                    }
                    if a.iter().any(|v| v.e != 0) {
                        return self.wide_bin(w as u32, a[1].c, (a[2], a[3]), (a[4], a[5]));
                    }
                    let x = a[2].c as u128 | (a[3].c as u128) << 64;
                    let y = a[4].c as u128 | (a[5].c as u128) << 64;
                    let wm = if w == 128 { !0 } else { (1u128 << w) - 1 };
                    let ops = [
                        Bin::Add,
                        Bin::Sub,
                        Bin::Mul,
                        Bin::UDiv,
                        Bin::SDiv,
                        Bin::URem,
                        Bin::SRem,
                        Bin::Shl,
                        Bin::LShr,
                        Bin::AShr,
                    ];
                    let op = ops.iter().find(|o| **o as u64 == a[1].c).copied();
                    let r = match op {
                        Some(Bin::Add) => x.wrapping_add(y),
                        Some(Bin::Sub) => x.wrapping_sub(y),
                        Some(Bin::Mul) => x.wrapping_mul(y),
                        Some(Bin::UDiv) if y != 0 => x / y,
                        Some(Bin::URem) if y != 0 => x % y,
                        Some(Bin::Shl) => x.checked_shl(y as u32).unwrap_or(0),
                        Some(Bin::LShr) => x.checked_shr(y as u32).unwrap_or(0),
                        o => return fatal(format!("wide op {:?}", o)),
                    } & wm;
                    Ok(vec![V::c(r as u64), V::c((r >> 64) as u64)])
                }
                "wide-icmp" => {
                    if a.iter().any(|v| v.e != 0) {
                        return self.wide_icmp(a[0].c as u32, a[1].c, (a[2], a[3]), (a[4], a[5]));
                    }
                    let x = a[2].c as u128 | (a[3].c as u128) << 64;
                    let y = a[4].c as u128 | (a[5].c as u128) << 64;
                    let (sx, sy) = (x as i128, y as i128);
                    let p = a[1].c;
                    let r = [
                        (Pred::Eq, x == y),
                        (Pred::Ne, x != y),
                        (Pred::Ugt, x > y),
                        (Pred::Uge, x >= y),
                        (Pred::Ult, x < y),
                        (Pred::Ule, x <= y),
                        (Pred::Sgt, sx > sy),
                        (Pred::Sge, sx >= sy),
                        (Pred::Slt, sx < sy),
                        (Pred::Sle, sx <= sy),
                    ]
                    .iter()
                    .find(|(q, _)| *q as u64 == p)
                    .unwrap()
                    .1;
                    one(r as u64)
                }
                _ => one(0),
            },
            Ext::Unsupported | Ext::DebugChar | Ext::DebugStr | Ext::HashOne => {
                fatal(format!("call of unsupported external {}", name))
            }
        }
    }
}
