//! The vocabulary of the harnesses. In the IR build these are undefined externals interpreted by the symbolic
//! executor; in the `native` build they read one concrete point from a file, so that a solver model is replayed
//! against the compiled program.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_real(p: *const u8, l: usize, lo: f64, hi: f64) -> f64;
        fn sym_choice(p: *const u8, l: usize, n: u64) -> u64;
        fn sym_assume(b: bool);
        fn sym_check(p: *const u8, l: usize, b: bool);
        fn sym_check_eq(p: *const u8, l: usize, a: f64, b: f64, scale: f64);
        fn sym_check_def(p: *const u8, l: usize, x: f64);
        fn sym_reach(p: *const u8, l: usize);
        fn sym_catch(f: extern "C" fn(*mut u8), d: *mut u8) -> u64;
        fn sym_crash_at(k: u64);
        fn sym_fs_ops() -> u64;
        fn sym_clock_step(ns: u64);
        fn sym_args_clear();
        fn sym_args_push(p: *const u8, l: usize);
        fn sym_print(p: *const u8, l: usize, x: f64);
    }
    pub fn real(n: &str, lo: f64, hi: f64) -> f64 { unsafe { sym_real(n.as_ptr(), n.len(), lo, hi) } }
    pub fn choice(n: &str, k: u64) -> u64 { unsafe { sym_choice(n.as_ptr(), n.len(), k) } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn check(n: &str, b: bool) { unsafe { sym_check(n.as_ptr(), n.len(), b) } }
    pub fn check_eq(n: &str, a: f64, b: f64, s: f64) { unsafe { sym_check_eq(n.as_ptr(), n.len(), a, b, s) } }
    pub fn check_def(n: &str, x: f64) { unsafe { sym_check_def(n.as_ptr(), n.len(), x) } }
    pub fn reach(n: &str) { unsafe { sym_reach(n.as_ptr(), n.len()) } }
    pub fn print(n: &str, x: f64) { unsafe { sym_print(n.as_ptr(), n.len(), x) } }
    extern "C" fn tramp<F: FnOnce()>(d: *mut u8) { let f = unsafe { (*(d as *mut Option<F>)).take() }; if let Some(f) = f { f() } }
    /// true if the closure panicked
    pub fn panics<F: FnOnce()>(f: F) -> bool { let mut o = Some(f); unsafe { sym_catch(tramp::<F>, &mut o as *mut Option<F> as *mut u8) != 0 } }
    /// runs the closure as a process of its own would: 0 returned, 1 panicked, 2 crashed at the scheduled file
    /// operation, 16+n exited with status n; memory effects must not be relied upon afterwards
    pub fn process<F: FnOnce()>(f: F) -> u64 { let mut o = Some(f); unsafe { sym_catch(tramp::<F>, &mut o as *mut Option<F> as *mut u8) } }
    pub fn crash_at(k: u64) { unsafe { sym_crash_at(k) } }
    pub fn fs_ops() -> u64 { unsafe { sym_fs_ops() } }
    /// how far the clock moves between two readings
    pub fn clock_step(ns: u64) { unsafe { sym_clock_step(ns) } }
    /// the program started with these arguments: 0 ended well, 1 panicked, 2 killed, 16+n exited with status n
    pub fn program(a: &[&str]) -> u64 { args(a); process(crate::cli::run) }
    pub fn args(a: &[&str]) { unsafe { sym_args_clear(); for s in a { sym_args_push(s.as_ptr(), s.len()) } } }
}

#[cfg(feature = "native")]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub static POINT: Mutex<Option<HashMap<String, f64>>> = Mutex::new(None);
    pub static FAILED: Mutex<Vec<String>> = Mutex::new(Vec::new());
    fn get(n: &str) -> Option<f64> { POINT.lock().unwrap().as_ref().and_then(|m| m.get(n).copied()) }
    pub fn real(n: &str, lo: f64, hi: f64) -> f64 { if lo == hi { return lo; } get(n).unwrap_or_else(|| { println!("NOTE missing {}", n); 0.5 * (lo + hi) }) }
    pub fn choice(n: &str, _k: u64) -> u64 { get(n).map(|x| x as u64).unwrap_or(0) }
    pub fn assume(b: bool) { if !b { println!("ASSUMPTION-NOT-MET"); report(); std::process::exit(if FAILED.lock().unwrap().is_empty() { 77 } else { 1 }); } }
    fn fail(n: &str, d: String) { println!("FAIL {}\t{}", n, d); FAILED.lock().unwrap().push(n.to_string()); }
    pub fn check(n: &str, b: bool) { if !b { fail(n, String::new()); } }
    pub fn check_eq(n: &str, a: f64, b: f64, s: f64) {
        let tol = 1e-8 * s.abs().max(a.abs()).max(b.abs());
        if !((a - b).abs() <= tol) && !(a == b) { fail(n, format!("got {:e} expected {:e} scale {:e}", a, b, s)); }
    }
    pub fn check_def(n: &str, x: f64) { if !x.is_finite() { fail(n, format!("value {:e}", x)); } }
    pub fn reach(_n: &str) {}
    pub fn print(n: &str, x: f64) { println!("PRINT {} {:e}", n, x); }
    pub fn report() {}
    pub fn panics<F: FnOnce()>(f: F) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    pub fn process<F: FnOnce()>(f: F) -> u64 {
        unsafe {
            let pid = fork();
            if pid == 0 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                _exit(if r.is_ok() { 200 } else { 201 });
            }
            let mut st = 0; waitpid(pid, &mut st, 0);
            CRASH = u64::MAX;
            if st & 0x7f != 0 { return 1; }
            match (st >> 8) & 0xff { 200 => 0, 201 | 101 => 1, 202 => 2, c => 16 + c as u64 }
        }
    }
    // scheduled crashes: the file-system calls of this binary go through these counters
    static mut OPS: u64 = 0;
    static mut CRASH: u64 = u64::MAX;
    pub fn crash_at(k: u64) { unsafe { OPS = 0; CRASH = k; } }
    pub fn fs_ops() -> u64 { unsafe { OPS } }
    unsafe fn op(fd: i32, buf: *const u8, n: usize) {
        if OPS == CRASH { if n > 0 && choice("torn", 2) == 1 { let k = n / 2 / 8 * 8; syscall(1, fd as i64, buf, k); } _exit(202); }
        OPS += 1;
    }
    unsafe fn fin(r: i64) -> i64 { r }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize { if fd > 2 { op(fd, buf, n); } fin(syscall(1, fd as i64, buf, n)) as isize }
    #[no_mangle] pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 { op(0, a as *const u8, 0); fin(syscall(82, a, b)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn unlink(a: *const i8) -> i32 { op(0, a as *const u8, 0); fin(syscall(87, a)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, l: i64) -> i32 { op(0, std::ptr::null(), 0); fin(syscall(77, fd as i64, l)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
        let ex = syscall(21, p, 0i64) == 0;
        if !ex { *__errno_location() = 0; }
        if fl & 0o3 != 0 && ((!ex && fl & 0o100 != 0) || (ex && fl & 0o1000 != 0 && !(fl & 0o300 == 0o300))) { op(0, p as *const u8, 0); }
        fin(syscall(2, p, fl as i64, mode as i64)) as i32
    }
    pub fn clock_step(ns: u64) { std::env::set_var("HX_CLOCK", ns.to_string()); }
    /// a process of its own, started on this executable, which then runs the program's main
    pub fn program(a: &[&str]) -> u64 {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.env("HX_CLI", "1").args(&a[1..]);
        match c.status() { Ok(s) => match s.code() { Some(0) => 0, Some(101) => 1, Some(n) => 16 + n as u64, None => 1 }, Err(_) => 1 }
    }
    pub static mut STEP: i64 = 0;
    pub static mut NOW: i64 = 0;
    #[no_mangle] pub unsafe extern "C" fn clock_gettime(k: i32, t: *mut i64) -> i32 {
        let r = syscall(228, k as i64, t) as i32;
        if STEP > 0 && k == 1 { NOW += STEP; *t = 1000 + NOW / 1_000_000_000; *t.add(1) = NOW % 1_000_000_000; }
        r
    }
}
pub use imp::*;

#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod exported { $(#[no_mangle] pub extern "C" fn $n() { super::$n() })* }
        pub const ALL: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
