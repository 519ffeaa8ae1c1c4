//! Harness API.  In the symbolic build these are external functions
//! implemented by the engine; in the `replay` build they read the solver's
//! model from a file.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn __vs_u8() -> u8;
        fn __vs_u16() -> u16;
        fn __vs_u32() -> u32;
        fn __vs_u64() -> u64;
        fn __vs_assume(c: bool);
        fn __vs_check(c: bool, id: u32);
        fn __vs_fail(id: u32);
        fn __vs_cover(id: u32);
        fn __vs_pick(v: u64) -> u64;
        fn __vs_param() -> u64;
        fn __vs_note(tag: u32, p: *const u8, n: u64);
    }
    #[inline(always)] pub fn u8() -> u8 { unsafe { __vs_u8() } }
    #[inline(always)] pub fn u16() -> u16 { unsafe { __vs_u16() } }
    #[inline(always)] pub fn u32() -> u32 { unsafe { __vs_u32() } }
    #[inline(always)] pub fn u64() -> u64 { unsafe { __vs_u64() } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { __vs_assume(c) } }
    #[inline(always)] pub fn check(c: bool, id: u32) { unsafe { __vs_check(c, id) } }
    #[inline(always)] pub fn fail(id: u32) { unsafe { __vs_fail(id) } }
    #[inline(always)] pub fn cover(id: u32) { unsafe { __vs_cover(id) } }
    #[inline(always)] pub fn pick(v: u64) -> u64 { unsafe { __vs_pick(v) } }
    #[inline(always)] pub fn param() -> u64 { unsafe { __vs_param() } }
    #[inline(always)] pub fn note(tag: u32, b: &[u8]) { unsafe { __vs_note(tag, b.as_ptr(), b.len() as u64) } }
}

#[cfg(feature = "replay")]
mod imp {
    use std::sync::Mutex;
    use std::collections::VecDeque;
    pub static INPUTS: Mutex<VecDeque<u64>> = Mutex::new(VecDeque::new());
    fn next() -> u64 {
        // An input the model left unconstrained (the violation happened before
        // it was created) may be anything.
        INPUTS.lock().unwrap_or_else(|e| e.into_inner()).pop_front().unwrap_or(0)
    }
    pub fn u8() -> u8 { next() as u8 }
    pub fn u16() -> u16 { next() as u16 }
    pub fn u32() -> u32 { next() as u32 }
    pub fn u64() -> u64 { next() }
    pub fn assume(c: bool) {
        if !c { eprintln!("REPLAY: assumption not satisfied"); std::process::exit(3); }
    }
    pub fn check(c: bool, id: u32) {
        if !c { eprintln!("REPLAY: check {} failed", id); std::process::exit(10); }
    }
    pub fn fail(id: u32) { check(false, id) }
    pub fn cover(_id: u32) {}
    pub fn pick(v: u64) -> u64 { v }
    pub fn param() -> u64 { std::env::var("VS_PARAM").ok().and_then(|s| s.parse().ok()).unwrap_or(0) }
    pub fn note(tag: u32, b: &[u8]) {
        eprintln!("REPLAY: note {} {:?}", tag, String::from_utf8_lossy(b));
    }
}
pub use self::imp::*;

/// A length in `0..=max`, one path per value.
pub fn len(max: u64) -> usize {
    let n = u8() as u64;
    assume(n <= max);
    pick(n) as usize
}

/// A value in `0..n`, one path per value.
pub fn choose(n: u64) -> u64 {
    let v = u8() as u64;
    assume(v < n);
    pick(v)
}

pub fn boolean() -> bool { let v = u8(); assume(v < 2); v == 1 }

pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(u8()); }
    v
}

/// Any valid UTF-8 string of exactly `n` bytes.
pub fn utf8(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => s,
        Err(_) => { assume(false); String::new() }
    }
}

/// Any valid UTF-8 string of at most `max` bytes.
pub fn string(max: u64) -> String { let n = len(max); utf8(n) }

/// 0 = quick bounds, 1 = thorough bounds.
pub fn thorough() -> bool { param() >= 1 }
/// Bound that depends on the tier.
pub fn bound(quick: u64, thorough_: u64) -> u64 { if thorough() { thorough_ } else { quick } }
