mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: symex PROGRAM.ll ENTRY [key=value...]");
        std::process::exit(2);
    }
    let opt = |k: &str, d: f64| -> f64 {
        args.iter()
            .find_map(|a| {
                a.strip_prefix(&format!("{}=", k))
                    .map(|v| v.parse::<f64>().unwrap())
            })
            .unwrap_or(d)
    };
    let mut cfg = Cfg {
        max_ins: opt("max_ins", 50e6) as u64,
        max_depth: opt("max_depth", 150000.0) as usize,
        max_stack: (opt("max_stack", 32.0) as u64) << 20,
        max_heap: opt("max_heap", 256e6) as u64,
        time_s: opt("time", 600.0),
        sample: (opt("sample", 50.0) as u64).max(1),
        sample_max: opt("sample_max", 60.0) as usize,
        keys: (opt("key0", 12345.0) as u64, opt("key1", 67890.0) as u64),
        max_viol: opt("max_viol", 8.0) as usize,
        dump_max: opt("dump", 0.0) as usize,
        solver_ms: opt("solver_ms", 60000.0) as u32,
        const_hash: opt("const_hash", 0.0) != 0.0,
        stats_blocks: opt("blocks", 0.0) != 0.0,
        params: (0..8)
            .map(|i| opt(&format!("p{}", i), 0.0) as u64)
            .collect(),
    };
    let threads = opt("threads", 8.0) as usize;
    let t0 = Instant::now();
    let src: &'static str = Box::leak(
        std::fs::read_to_string(&args[1])
            .expect("read ir")
            .into_boxed_str(),
    );
    let mut l = ir::Linker::new(src);
    if !l.has_func(&args[2]) {
        println!("{{\"fatal\":\"no entry {}\"}}", args[2]);
        std::process::exit(2);
    }
    let entry = l.func_id(&args[2]);
    l.link();
    let prog: &'static ir::Program = Box::leak(Box::new(l.prog));
    let load_s = t0.elapsed().as_secs_f64();
    let sh = loop {
        let sh = Shared {
            q: Mutex::new((VecDeque::from([vec![]]), 0)),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            sym_hash: AtomicBool::new(false),
            nthreads: threads,
            start: Instant::now(),
            paths: AtomicU64::new(0),
            out: Mutex::new(Output::default()),
        };
        std::thread::scope(|s| {
            for _ in 0..threads {
                let (sh, cfg) = (&sh, &cfg);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut w = Worker::new(prog, cfg, sh);
                            w.run(entry);
                        }));
                        if r.is_err() {
                            println!("{{\"fatal\":\"engine panic\"}}");
                            std::process::exit(2);
                        }
                    })
                    .unwrap();
            }
        });
        // with symbolic keys in maps: once more, every key with the same hash
        if sh.sym_hash.load(std::sync::atomic::Ordering::Relaxed) && !cfg.const_hash {
            cfg.const_hash = true;
            continue;
        }
        break sh;
    };
    let wall = sh.start.elapsed().as_secs_f64();
    let o = sh.out.into_inner().unwrap();
    let s = &o.stats;
    let mut j = String::from("{\n");
    let _ = write!(
        j,
        "\"entry\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"timeout\":{},\"const_hash\":{},\n\"paths\":{},\"done\":{},\"assume_killed\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\n\"checks\":{},\"symbolic_checks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.2},\"max_vars\":{},\"max_stack\":{},\"functions_loaded\":{},\n",
        esc(&args[2]), load_s, wall, o.timeout, cfg.const_hash, s.paths, s.done, s.assume, s.forks, s.ins, s.max_ins, s.checks, s.sym_checks,
        s.queries, s.sat, s.unsat, s.cache_hits, s.solver_s, s.max_vars, s.max_stack, prog.funcs.iter().filter(|f| f.is_some()).count()
    );
    let mut r: Vec<_> = s.reach.iter().collect();
    r.sort();
    let _ = write!(
        j,
        "\"reach\":{{{}}},\n",
        r.iter()
            .map(|(k, v)| format!("\"{}\":{}", k, v))
            .collect::<Vec<_>>()
            .join(",")
    );
    let mut r: Vec<_> = s.checks_by_id.iter().collect();
    r.sort();
    let _ = write!(
        j,
        "\"checks_by_id\":{{{}}},\n",
        r.iter()
            .map(|(k, v)| format!("\"{}\":{}", k, v))
            .collect::<Vec<_>>()
            .join(",")
    );
    let mut fs: Vec<String> = o
        .funcs
        .iter()
        .filter(|f| {
            prog.funcs[**f as usize]
                .as_ref()
                .map_or(false, |f| f.interesting)
        })
        .map(|f| ir::demangle(&prog.func_names[*f as usize]))
        .collect();
    fs.sort();
    fs.dedup();
    let _ = write!(
        j,
        "\"functions_total\":{},\n\"functions\":[{}],\n",
        o.funcs.len(),
        fs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"violations\":[{}],\n",
        o.viol
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"inputs\":{},\"stack\":[{}]}}",
                esc(&v.kind),
                nums(&v.inputs),
                v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    let _ = write!(
        j,
        "\"fatal_list\":[{}],\n",
        o.fatal.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"samples\":[{}],\n",
        o.recs
            .iter()
            .map(|r| format!(
                "{{\"inputs\":{},\"digest\":\"{:016x}\"}}",
                nums(&r.inputs),
                r.digest
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    if cfg.stats_blocks {
        let mut b: Vec<_> = o
            .blocks
            .iter()
            .map(|((f, p), n)| (ir::demangle(&prog.func_names[*f as usize]), *p, *n))
            .collect();
        b.sort();
        let _ = write!(
            j,
            "\"blocks\":[{}],\n",
            b.iter()
                .map(|(f, p, n)| format!("[{},{},{}]", esc(f), p, n))
                .collect::<Vec<_>>()
                .join(",\n")
        );
    }
    if cfg.stats_blocks {
        let mut b: Vec<_> = o.sites.iter().collect();
        b.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let _ = write!(
            j,
            "\"sites\":[{}],\n",
            b.iter()
                .take(20)
                .map(|(f, n)| format!("[{},{}]", esc(f), n))
                .collect::<Vec<_>>()
                .join(",\n")
        );
    }
    let _ = write!(
        j,
        "\"smt\":[{}]\n}}\n",
        o.dump
            .iter()
            .map(|(t, b)| format!("{{\"sat\":{},\"text\":{}}}", b, esc(t)))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    print!("{}", j);
}
