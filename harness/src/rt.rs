//! Interface between the harnesses and the two ways of running them.
//! Symbolic build: the functions below are externs that the engine (symx) interprets.
//! Native build (feature "native"): they replay one assignment of the symbolic values.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_choose(n: u32) -> u32;
        fn __sym_fork(n: u32) -> u32;
        fn __sym_byte() -> u8;
        fn __sym_u32() -> u32;
        fn __sym_u64() -> u64;
        fn __sym_assume(c: bool);
        fn __sym_check(c: bool, code: u32);
        fn __sym_reach(code: u32);
        fn __sym_observe(x: u64);
        fn __sym_ite(p: *const u8);
        fn __sym_concretize(x: u64) -> u64;
        fn __sym_end() -> !;
        fn __sym_enabled(code: u32) -> bool;
    }
    /// a symbolic value in 0..n, kept symbolic
    #[inline(always)]
    pub fn choose(n: u32) -> u32 {
        unsafe { __sym_choose(n) }
    }
    /// a symbolic value in 0..n, one execution state per value
    #[inline(always)]
    pub fn fork(n: u32) -> u32 {
        unsafe { __sym_fork(n) }
    }
    #[inline(always)]
    pub fn byte() -> u8 {
        unsafe { __sym_byte() }
    }
    #[inline(always)]
    pub fn u32_() -> u32 {
        unsafe { __sym_u32() }
    }
    #[inline(always)]
    pub fn u64_() -> u64 {
        unsafe { __sym_u64() }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, code: u32) {
        unsafe { __sym_check(c, code) }
    }
    #[inline(always)]
    pub fn reach(code: u32) {
        unsafe { __sym_reach(code) }
    }
    #[inline(always)]
    pub fn observe(x: u64) {
        unsafe { __sym_observe(x) }
    }
    #[inline(always)]
    pub fn ite_table<T>(p: &T) {
        unsafe { __sym_ite(p as *const T as *const u8) }
    }
    /// loads from this object at symbolic positions become case distinctions in the formula
    #[inline(always)]
    pub fn ite_slice<T>(p: &[T]) {
        unsafe { __sym_ite(p.as_ptr() as *const u8) }
    }
    #[inline(always)]
    pub fn concretize(x: u64) -> u64 {
        unsafe { __sym_concretize(x) }
    }
    /// whether checks of this code's property count in this run
    #[inline(always)]
    pub fn enabled(code: u32) -> bool {
        unsafe { __sym_enabled(code) }
    }
    #[inline(always)]
    pub fn end() -> ! {
        unsafe { __sym_end() }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    pub struct St {
        pub vals: Vec<u64>,
        pub pos: usize,
        pub hash: u64,
        pub reached: Vec<u32>,
        pub log: bool,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St{vals:vec![],pos:0,hash:0,reached:vec![],log:false}); }
    thread_local! { static PROPS: Vec<u32> = std::env::var("SYMX_PROPS").map(|v| v.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default(); }
    pub enum Stop {
        Assume,
        Check(u32),
        End,
        Short,
    }
    fn next() -> u64 {
        let v = ST.with(|s| {
            let mut s = s.borrow_mut();
            let p = s.pos;
            s.pos += 1;
            s.vals.get(p).copied()
        });
        match v {
            Some(v) => v,
            None => std::panic::panic_any(Stop::Short),
        }
    }
    pub fn choose(n: u32) -> u32 {
        let v = next() as u32;
        if v >= n {
            std::panic::panic_any(Stop::Assume)
        }
        v
    }
    pub fn fork(n: u32) -> u32 {
        choose(n)
    }
    pub fn byte() -> u8 {
        next() as u8
    }
    pub fn u32_() -> u32 {
        next() as u32
    }
    pub fn u64_() -> u64 {
        next()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop::Assume)
        }
    }
    pub fn check(c: bool, code: u32) {
        if !c && enabled(code) {
            std::panic::panic_any(Stop::Check(code))
        }
    }
    pub fn enabled(code: u32) -> bool {
        PROPS.with(|p| p.is_empty() || p.contains(&(code / 100)))
    }
    pub fn reach(code: u32) {
        ST.with(|s| s.borrow_mut().reached.push(code))
    }
    pub fn observe(x: u64) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            if s.log {
                eprintln!("observe {x:#x}");
            }
            s.hash = ((s.hash ^ x).wrapping_mul(0x100000001b3)).rotate_left(17);
        })
    }
    pub fn ite_table<T>(_: &T) {}
    pub fn ite_slice<T>(_: &[T]) {}
    pub fn concretize(x: u64) -> u64 {
        x
    }
    pub fn end() -> ! {
        std::panic::panic_any(Stop::End)
    }
}
pub use imp::*;

/// Human-readable description of the case being run (native replay only).
#[cfg(feature = "native")]
pub fn describe(f: impl FnOnce() -> String) {
    if ST.with(|s| s.borrow().log) {
        println!("{}", f());
    }
}
#[cfg(not(feature = "native"))]
#[inline(always)]
pub fn describe(_: impl FnOnce() -> String) {}

pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    for b in s.bytes() {
        observe(b as u64);
    }
}
