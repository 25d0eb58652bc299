//! Native execution of a harness on concrete values.
//!   replay ENTRY FILE      one line of values per run; prints one line per run
extern crate vharness;
use std::cell::RefCell;

#[derive(Default)]
struct St {
    inputs: Vec<u64>,
    pos: usize,
    digest: u64,
    fails: Vec<u64>,
    params: Vec<u64>,
    bad: bool,
}
thread_local!(static S: RefCell<St> = RefCell::new(St::default()));

struct Stop;

fn next() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.pos;
        s.pos += 1;
        match s.inputs.get(i) {
            Some(v) => *v,
            None => {
                s.bad = true;
                0
            }
        }
    })
}
#[no_mangle]
pub extern "C" fn vsym_bits(w: u32) -> u64 {
    let v = next();
    if w >= 64 {
        v
    } else {
        v & ((1 << w) - 1)
    }
}
#[no_mangle]
pub extern "C-unwind" fn vsym_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        S.with(|s| s.borrow_mut().bad = true);
        std::panic::resume_unwind(Box::new(Stop));
    }
    v
}
#[no_mangle]
pub extern "C" fn vsym_choice(n: u64) -> u64 {
    let v = next();
    if v >= n {
        S.with(|s| s.borrow_mut().bad = true);
        0
    } else {
        v
    }
}
#[no_mangle]
pub extern "C-unwind" fn vassume(b: bool) {
    if !b {
        S.with(|s| s.borrow_mut().bad = true);
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C" fn vcheck(b: bool, id: u64) {
    if !b {
        S.with(|s| s.borrow_mut().fails.push(id));
        println!("CHECK {}", id);
    }
}
#[no_mangle]
pub extern "C" fn vreach(_: u32) {}
#[no_mangle]
pub extern "C" fn vdigest(v: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.digest = (s.digest ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    })
}
#[no_mangle]
pub extern "C" fn vconcretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn vparam(i: u32) -> u64 {
    S.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let params: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    let f = vharness::entry(&a[1]).expect("entry");
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.to_string().replace('\n', " "));
    }));
    for line in txt.lines() {
        let inputs: Vec<u64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let params = params.clone();
        let n = inputs.len();
        // the default 8 MB main-thread stack, as in an ordinary program
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            S.with(|s| {
                *s.borrow_mut() = St { inputs, digest: 0xcbf29ce484222325, params, ..St::default() };
            });
            let r = std::panic::catch_unwind(|| f());
            S.with(|s| {
                let s = s.borrow();
                let panic = matches!(&r, Err(e) if !e.is::<Stop>());
                println!(
                    "RESULT {:016x} {} {} {}",
                    s.digest,
                    if panic { "panic" } else { "ok" },
                    if s.bad || (!panic && s.pos != n) { "desync" } else { "sync" },
                    s.fails.len()
                );
            });
        });
        t.unwrap().join().unwrap();
    }
}
