//! The interface to the symbolic executor.  The same functions are provided by `bin/replay.rs`
//! for native execution of one concrete assignment.

mod ffi {
    extern "C" {
        pub fn vsym_bits(w: u32) -> u64;
        pub fn vsym_range(lo: u64, hi: u64) -> u64;
        pub fn vsym_choice(n: u64) -> u64;
        pub fn vassume(b: bool);
        pub fn vcheck(b: bool, id: u64);
        pub fn vreach(id: u32);
        pub fn vdigest(v: u64);
        pub fn vconcretize(v: u64) -> u64;
        pub fn vparam(i: u32) -> u64;
    }
}

/// a symbolic bit-vector of `w` bits
pub fn bits(w: u32) -> u64 {
    unsafe { ffi::vsym_bits(w) }
}
/// a symbolic integer in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::vsym_range(lo, hi) }
}
pub fn size(lo: usize, hi: usize) -> usize {
    range(lo as u64, hi as u64) as usize
}
/// a nondeterministic choice in 0..n, explored by forking
pub fn choice(n: usize) -> usize {
    unsafe { ffi::vsym_choice(n as u64) as usize }
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(b: bool) {
    unsafe { ffi::vassume(b) }
}
/// the assertion
pub fn check(b: bool, id: u64) {
    unsafe { ffi::vcheck(b, id) }
}
pub fn reach(id: u32) {
    unsafe { ffi::vreach(id) }
}
pub fn digest(v: u64) {
    unsafe { ffi::vdigest(v) }
}
pub fn digest_str(s: &str) {
    digest(s.len() as u64);
    for b in s.bytes() {
        digest(b as u64);
    }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::vconcretize(v) }
}
pub fn param(i: u32) -> usize {
    unsafe { ffi::vparam(i) as usize }
}

/// a symbolic character in lo..=hi (not crossing the surrogates; up to char::MAX means any character)
pub fn ch(lo: char, hi: char) -> char {
    if hi == '\u{10ffff}' {
        return any_char();
    }
    let v = range(lo as u64, hi as u64) as u32;
    unsafe { char::from_u32_unchecked(v) }
}
/// any Unicode scalar value, forking on the length of its encoding
pub fn any_char() -> char {
    let (lo, hi) = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)][choice(5)];
    let v = range(lo, hi) as u32;
    unsafe { char::from_u32_unchecked(v) }
}

/// only in native replay: describe the case
pub fn noting() -> bool {
    param(7) == 1
}
pub fn note(s: &str) {
    println!("NOTE {}", s);
}
/// n symbolic characters
pub fn text(n: usize, lo: char, hi: char) -> Vec<char> {
    (0..n).map(|_| ch(lo, hi)).collect()
}
pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
