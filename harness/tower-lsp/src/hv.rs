//! Intrinsics between the harness and the symbolic executor. Under `--cfg hv_native`
//! (replay of a counterexample) they read concrete values from the file `$HV_INPUT`.
#[cfg(not(hv_native))]
mod imp {
    extern "C" {
        pub fn hv_harness() -> u32;
        pub fn hv_param(i: u32) -> u32;
        pub fn hv_sym(bits: u32) -> u64;
        pub fn hv_assume(c: bool);
        pub fn hv_assert(c: bool, code: u32);
        pub fn hv_reach(code: u32);
        pub fn hv_text(p: *const u8, n: usize);
        pub fn hv_choose(n: u64) -> u64;
        pub fn hv_written() -> u64;
    }
}
#[cfg(hv_native)]
#[path = "hv_native.rs"]
mod imp;

pub fn harness() -> u32 { unsafe { imp::hv_harness() } }
pub fn param(i: u32) -> u32 { unsafe { imp::hv_param(i) } }
/// A value below `n` (n <= 256), every one of which is explored.
pub fn choose(n: usize) -> usize { unsafe { imp::hv_choose(n as u64) as usize } }
pub fn flag() -> bool { choose(2) == 1 }
pub fn u8() -> u8 { unsafe { imp::hv_sym(8) as u8 } }
pub fn u32() -> u32 { unsafe { imp::hv_sym(32) as u32 } }
pub fn u64() -> u64 { unsafe { imp::hv_sym(64) } }
pub fn assume(c: bool) { unsafe { imp::hv_assume(c) } }
/// The property's assertion number `code`.
pub fn check(c: bool, code: u32) {
    // C22 reuses harnesses of other properties, whose assertions are not its own
    if cfg!(feature = "c22") && code < 505 { return; }
    unsafe { imp::hv_assert(c, code) }
}
/// How many bytes have been written to standard output so far.
pub fn written() -> u64 {
    let _ = std::io::Write::flush(&mut std::io::stdout());
    unsafe { imp::hv_written() }
}
/// Vacuity witness: `code` must be reached on some feasible path.
pub fn reach(code: u32) { unsafe { imp::hv_reach(code) } }
/// Hands the (symbolic) text of a case to the executor, for samples and reports.
pub fn text(s: &str) { unsafe { imp::hv_text(s.as_ptr(), s.len()) } }

/// The directory under which the modelled files lie.
pub const ROOT: &str = "/tmp/hv-replay-root";
/// Makes a file exist. In the encoding the file system consists of exactly these files (see
/// `hv_stat64`, which stands for the system call); in a replay they are created under `ROOT`.
pub fn file(path: &str) {
    #[cfg(not(hv_native))]
    files::FILES.lock().unwrap().push(path.to_string());
    #[cfg(hv_native)]
    imp::create(path);
}
#[cfg(not(hv_native))]
mod files {
    pub static FILES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    /// prep replaces calls of `stat64` and `access` by this.
    #[no_mangle]
    pub unsafe extern "C" fn hv_stat64(path: *const u8, buf: *mut u32) -> i32 {
        let mut n = 0;
        while *path.add(n) != 0 { n += 1; }
        let p = std::slice::from_raw_parts(path, n);
        let hit = FILES.lock().unwrap().iter().any(|f| f.as_bytes() == p);
        if !hit { return -1; }
        // st_mode of `struct stat` on x86-64: a regular file
        *buf.add(6) = 0o100644;
        0
    }
    extern "C" { fn malloc(n: usize) -> *mut u8; }
    /// prep replaces calls of `realpath` by this: no file of the list is a link.
    #[no_mangle]
    pub unsafe extern "C" fn hv_realpath(path: *const u8, to: *mut u8) -> *mut u8 {
        let mut n = 0;
        while *path.add(n) != 0 { n += 1; }
        let p = std::slice::from_raw_parts(path, n);
        let hit = FILES.lock().unwrap().iter().any(|f| f.as_bytes() == p);
        if !hit { return std::ptr::null_mut(); }
        let r = if to.is_null() { malloc(n + 1) } else { to };
        let mut i = 0;
        while i <= n { *r.add(i) = *path.add(i); i += 1; }
        r
    }
    #[used]
    static KEEP2: unsafe extern "C" fn(*const u8, *mut u8) -> *mut u8 = hv_realpath;
    #[used]
    static KEEP: unsafe extern "C" fn(*const u8, *mut u32) -> i32 = hv_stat64;
}
