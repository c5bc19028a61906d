//! The harness side of the engine's protocol.  In the symbolic build these are
//! engine builtins; in the native (replay) build they read the values of a
//! counterexample from a file.

mod raw {
    extern "C" {
        pub fn sym_new(name: *const u8, len: usize, dst: *mut u8, n: usize);
        pub fn sym_choice(name: *const u8, len: usize, n: u32) -> u32;
        pub fn sym_param(name: *const u8, len: usize, default: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_is_const(p: *const u8, n: usize) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, msg: *const u8, len: usize);
        pub fn sym_cover(msg: *const u8, len: usize);
        pub fn sym_note(msg: *const u8, len: usize);
        pub fn sym_merge(on: u32) -> u32;
        pub fn sym_reg_get(i: u32) -> u64;
        pub fn sym_reg_set(i: u32, v: u64);
        pub fn sym_run(f: extern "C" fn(*mut u8) -> i32, data: *mut u8, reset: u32) -> i32;
        pub fn sym_exit(code: i32) -> !;
        pub fn sym_end() -> !;
        pub fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
        pub fn sym_args(argc: usize, argv: *const *const u8);
    }
}

pub fn fill(name: &str, b: &mut [u8]) {
    unsafe { raw::sym_new(name.as_ptr(), name.len(), b.as_mut_ptr(), b.len()) }
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(name, &mut v);
    v
}
pub fn byte(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(name, &mut b);
    b[0]
}
pub fn word(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(name, &mut b);
    u64::from_le_bytes(b)
}
/// a value below n, split into one path per value
pub fn choice(name: &str, n: u32) -> u32 {
    unsafe { raw::sym_choice(name.as_ptr(), name.len(), n) }
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
/// a bound set by the check (quick and thorough differ here)
pub fn param(name: &str, default: u64) -> u64 {
    unsafe { raw::sym_param(name.as_ptr(), name.len(), default) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
pub fn is_const(b: &[u8]) -> bool {
    unsafe { raw::sym_is_const(b.as_ptr(), b.len()) != 0 }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { raw::sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) -> ! {
    check(false, msg);
    end()
}
pub fn cover(msg: &str) {
    unsafe { raw::sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn note(msg: &str) {
    unsafe { raw::sym_note(msg.as_ptr(), msg.len()) }
}
pub fn merge(on: bool) -> bool {
    unsafe { raw::sym_merge(on as u32) != 0 }
}
pub fn reg_get(i: u32) -> u64 {
    unsafe { raw::sym_reg_get(i) }
}
pub fn reg_set(i: u32, v: u64) {
    unsafe { raw::sym_reg_set(i, v) }
}
pub fn run(f: extern "C" fn(*mut u8) -> i32, data: *mut u8, reset: bool) -> i32 {
    unsafe { raw::sym_run(f, data, reset as u32) }
}
pub fn exit(code: i32) -> ! {
    unsafe { raw::sym_exit(code) }
}
pub fn end() -> ! {
    unsafe { raw::sym_end() }
}
#[cfg(not(feature = "native"))]
pub fn set_args(argc: usize, argv: *const *const u8) {
    unsafe { raw::sym_args(argc, argv) }
}
#[cfg(feature = "native")]
pub fn set_args(argc: usize, argv: *const *const u8) {
    crate::native::set_args(argc, argv)
}

/// compare without branching on symbolic bytes
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.is_empty() {
        return true;
    }
    unsafe { raw::bcmp(a.as_ptr(), b.as_ptr(), a.len()) == 0 }
}
