//! Interface between harness code and the symbolic engine; with `--cfg inksym_ir` the primitives are
//! opaque symbols that the engine interprets, otherwise they replay a recorded assignment natively.
#![allow(dead_code)]

#[cfg(inksym_ir)]
mod imp {
    std::arch::global_asm!(
        ".globl inksym_byte", ".globl inksym_assume", ".globl inksym_check", ".globl inksym_note",
        ".globl inksym_note_bytes", ".globl inksym_reach", ".globl inksym_concretize", ".globl inksym_mode", ".globl inksym_file",
        "inksym_byte:", "inksym_assume:", "inksym_check:", "inksym_note:", "inksym_note_bytes:",
        "inksym_reach:", "inksym_concretize:", "inksym_mode:", "inksym_file:", "ud2"
    );
    extern "C" {
        pub fn inksym_byte(set: *const u8, n: usize) -> u8;
        pub fn inksym_assume(c: u32);
        pub fn inksym_check(c: u32, m: *const u8, n: usize);
        pub fn inksym_note(v: u64);
        pub fn inksym_note_bytes(p: *const u8, n: usize);
        pub fn inksym_reach(p: *const u8, n: usize);
        pub fn inksym_concretize(x: u64) -> u64;
        pub fn inksym_mode(k: u32, v: u64);
        pub fn inksym_file(p: *const u8, n: usize, d: *const u8, m: usize);
    }
    pub fn load(_: Vec<u8>) {}
    pub fn dir() -> String { "/w".to_string() }
    pub fn finish() -> (u64, u64) { (0, 0) }
    pub fn failed() -> u64 { 0 }
}
#[cfg(not(inksym_ir))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rep { pub data: Vec<u8>, pub pos: usize, pub hash: u64, pub notes: u64, pub failed: u64, pub dev: bool, pub sizes: Vec<(usize, usize)>, pub msgs: Vec<String>, pub shown: Vec<String> }
    thread_local!(static REP: RefCell<Rep> = RefCell::new(Rep { hash: 0xcbf29ce484222325, ..Default::default() }));
    thread_local! { static CASE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
    pub fn load(d: Vec<u8>) { CASE.with(|c| c.set(c.get() + 1)); REP.with(|r| *r.borrow_mut() = Rep { data: d, hash: 0xcbf29ce484222325, ..Default::default() }) }
    /// Development only: enumerate the choices natively (see `run::enumerate`).
    pub fn dev_start(idx: Vec<u8>) { CASE.with(|c| c.set(c.get() + 1)); REP.with(|r| *r.borrow_mut() = Rep { data: idx, dev: true, ..Default::default() }) }
    pub fn dev_end() -> (Vec<(usize, usize)>, Vec<String>, Vec<String>) { REP.with(|r| { let mut r = r.borrow_mut(); r.dev = false; (std::mem::take(&mut r.sizes), std::mem::take(&mut r.msgs), std::mem::take(&mut r.shown)) }) }
    pub fn failed() -> u64 { REP.with(|r| r.borrow().failed) }
    pub fn finish() -> (u64, u64) { REP.with(|r| { let r = r.borrow(); (r.hash, r.notes) }) }
    pub unsafe fn inksym_byte(set: *const u8, n: usize) -> u8 {
        REP.with(|r| {
            let mut r = r.borrow_mut();
            let set = unsafe { std::slice::from_raw_parts(set, n) };
            if r.dev {
                let p = r.sizes.len();
                let i = *r.data.get(p).unwrap_or(&0) as usize;
                r.sizes.push((i, if n == 0 { 256 } else { n }));
                return if n == 0 { i as u8 } else { set[i] };
            }
            let p = r.pos; r.pos += 1;
            match r.data.get(p) {
                Some(b) if n == 0 || set.contains(b) => *b,
                Some(b) => { eprintln!("replay byte {} = {} not in its set", p, b); std::process::exit(66) }
                None => if n == 0 { 0 } else { set[0] },
            }
        })
    }
    pub unsafe fn inksym_assume(c: u32) { if c == 0 { if REP.with(|r| r.borrow().dev) { std::panic::resume_unwind(Box::new("assume")) } println!("ASSUME-FALSE"); std::process::exit(65) } }
    pub unsafe fn inksym_check(c: u32, m: *const u8, n: usize) {
        if c == 0 {
            let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(m, n)) };
            if REP.with(|r| { let mut r = r.borrow_mut(); if r.dev { r.msgs.push(m.to_string()) } r.dev }) { return }
            println!("CHECK-FAILED {}", m);
            REP.with(|r| r.borrow_mut().failed += 1)
        }
    }
    pub unsafe fn inksym_note(v: u64) { REP.with(|r| { let mut r = r.borrow_mut(); r.hash = (r.hash ^ v).wrapping_mul(0x100000001b3); r.notes += 1 }) }
    pub unsafe fn inksym_note_bytes(p: *const u8, n: usize) {
        if REP.with(|r| { let mut r = r.borrow_mut(); if r.dev { r.shown.push(String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()) } r.dev }) { return }
        if std::env::var_os("INKSYM_SHOW").is_some() { println!("note: {}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) })) }
        for i in 0..n { inksym_note(unsafe { *p.add(i) } as u64) }
    }
    pub unsafe fn inksym_reach(_: *const u8, _: usize) {}
    pub unsafe fn inksym_concretize(x: u64) -> u64 { x }
    pub unsafe fn inksym_mode(_: u32, _: u64) {}
    /// A directory of its own for every case.
    pub fn dir() -> String { std::env::var("INKSYM_DIR").map_or_else(|_| "/nonexistent-inksym".into(), |d| format!("{}/{}", d, CASE.with(|c| c.get()))) }
    pub unsafe fn inksym_file(p: *const u8, n: usize, d: *const u8, m: usize) {
        let p = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        let d = unsafe { std::slice::from_raw_parts(d, m) };
        if std::env::var("INKSYM_DIR").is_ok() { let p = std::path::Path::new(p); let _ = std::fs::create_dir_all(p.parent().unwrap()); std::fs::write(p, d).unwrap() }
    }
}
pub use imp::{dir, failed, finish, load};
#[cfg(not(inksym_ir))]
pub use imp::{dev_end, dev_start};
/// Places a file (path relative to `dir()`) in the environment of the code under test.
pub fn file(rel: &str, content: &str) { let p = format!("{}/{}", dir(), rel); unsafe { imp::inksym_file(p.as_ptr(), p.len(), content.as_ptr(), content.len()) } }

/// A fresh symbolic byte ranging over `set` (any byte if empty).
pub fn byte(set: &[u8]) -> u8 { unsafe { imp::inksym_byte(set.as_ptr(), set.len()) } }
/// A fresh structural choice in `0..n` (explored as separate cases).
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0 }
    let all: [u8; 64] = core::array::from_fn(|i| i as u8);
    unsafe { imp::inksym_concretize(byte(&all[..n]) as u64) as usize }
}
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len())] }
pub fn assume(c: bool) { unsafe { imp::inksym_assume(c as u32) } }
pub fn check(c: bool, m: &str) { unsafe { imp::inksym_check(c as u32, m.as_ptr(), m.len()) } }
pub fn note(v: u64) { unsafe { imp::inksym_note(v) } }
pub fn note_str(s: &str) { unsafe { imp::inksym_note_bytes(s.as_ptr(), s.len()) } }
pub fn reach(s: &str) { unsafe { imp::inksym_reach(s.as_ptr(), s.len()) } }
pub fn concretize(x: u64) -> u64 { unsafe { imp::inksym_concretize(x) } }
pub fn mode(k: u32, v: u64) { unsafe { imp::inksym_mode(k, v) } }
/// `check` whose message is only built on failure.
#[macro_export]
macro_rules! chk { ($c:expr, $($a:tt)*) => { if !$c { $crate::sym::check(false, &format!($($a)*)) } else { $crate::sym::check(true, "") } } }
/// Symbolic text of exactly `n` bytes over an ASCII set.
pub fn text(n: usize, set: &[u8]) -> String {
    let v: Vec<u8> = (0..n).map(|_| byte(set)).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// Text of exactly `n` bytes over an ASCII set, each byte explored as separate cases.
pub fn ctext(n: usize, set: &[u8]) -> String {
    let v: Vec<u8> = (0..n).map(|_| concretize(byte(set) as u64) as u8).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// All assignments over `sizes` with at most `k` non-zero (non-default) entries.
pub fn vary(sizes: &[usize], mut k: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(sizes.len());
    for n in sizes {
        let x = if k > 0 { choose(*n) } else { 0 };
        if x != 0 { k -= 1 }
        v.push(x);
    }
    v
}
