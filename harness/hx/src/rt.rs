//! Intrinsics: implemented by symx (symbolically) and by the replay binary.
mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u32() -> u32;
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, code: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_lut(on: u32);
        pub fn sym_refusal(on: u32);
        pub fn sym_arg(i: u32) -> u32;
        pub fn sym_note(p: *const u8, n: usize);
    }
}
/// a fresh symbolic byte
#[inline(always)]
pub fn any_u8() -> u8 {
    unsafe { ffi::sym_u8() }
}
/// a fresh symbolic byte < n
#[inline(always)]
pub fn any_below(n: u8) -> u8 {
    let x = any_u8();
    assume(x < n);
    x
}
/// a fresh symbolic 32-bit word
#[inline(always)]
pub fn any_u32() -> u32 {
    unsafe { ffi::sym_u32() }
}
#[inline(always)]
pub fn any_bool() -> bool {
    let x = any_u8();
    assume(x < 2);
    x == 1
}
/// forks: the result is concrete on each path, 0..n
#[inline(always)]
pub fn choose(n: u32) -> u32 {
    unsafe { ffi::sym_choice(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, code: u32) {
    unsafe { ffi::sym_assert(c, code) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { ffi::sym_cover(id) }
}
/// spec mode: table look-ups at symbolic indices give expressions instead of forking
#[inline(always)]
pub fn lut(on: bool) {
    unsafe { ffi::sym_lut(on as u32) }
}
/// from here on a panic is a legitimate refusal (it counts as cover point 90)
#[inline(always)]
pub fn may_refuse(on: bool) {
    unsafe { ffi::sym_refusal(on as u32) }
}
/// a fresh symbolic 64-bit word
#[inline(always)]
pub fn any_u64() -> u64 {
    (any_u32() as u64) << 32 | any_u32() as u64
}
/// job parameter
#[inline(always)]
pub fn arg(i: u32) -> u32 {
    unsafe { ffi::sym_arg(i) }
}
#[inline(always)]
pub fn note(s: &str) {
    unsafe { ffi::sym_note(s.as_ptr(), s.len()) }
}
