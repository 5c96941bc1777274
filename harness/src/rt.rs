// Symbolic inputs and assertions: the only interface between a harness and the engine.
unsafe extern "C" {
    fn __sym_any(bits: u32) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_reach(id: u32);
    fn __sym_panic_id(id: u32);
    fn __sym_fix(v: u64) -> u64;
    fn __sym_trace(tag: u32, v: u64);
}
#[inline(always)]
pub fn any_u64() -> u64 { unsafe { __sym_any(64) } }
#[inline(always)]
pub fn any_u32() -> u32 { unsafe { __sym_any(32) as u32 } }
#[inline(always)]
pub fn any_u16() -> u16 { unsafe { __sym_any(16) as u16 } }
#[inline(always)]
pub fn any_u8() -> u8 { unsafe { __sym_any(8) as u8 } }
#[inline(always)]
pub fn any_bool() -> bool { unsafe { __sym_any(1) != 0 } }
#[inline(always)]
pub fn any_i64() -> i64 { any_u64() as i64 }
#[inline(always)]
pub fn any_i32() -> i32 { any_u32() as i32 }
#[inline(always)]
pub fn any_i16() -> i16 { any_u16() as i16 }
#[inline(always)]
pub fn any_i8() -> i8 { any_u8() as i8 }
#[inline(always)]
pub fn any_u128() -> u128 { (any_u64() as u128) << 64 | any_u64() as u128 }
#[inline(always)]
pub fn any_i128() -> i128 { any_u128() as i128 }
#[inline(always)]
pub fn any_f64() -> f64 { f64::from_bits(any_u64()) }
#[inline(always)]
pub fn any_f32() -> f32 { f32::from_bits(any_u32()) }
/// Restrict the inputs considered from here on.
#[inline(always)]
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
/// The property.
#[inline(always)]
pub fn check(c: bool, id: u32) { unsafe { __sym_assert(c, id) } }
/// Vacuity witness: some path must get here.
#[inline(always)]
pub fn reach(id: u32) { unsafe { __sym_reach(id) } }
/// A panic from here on, on this path, is a violation attributed to `id`.
#[inline(always)]
pub fn panic_id(id: u32) { unsafe { __sym_panic_id(id) } }
/// A panic from here on, on this path, is not a violation: the path just ends.
#[inline(always)]
pub fn panics_allowed() { unsafe { __sym_panic_id(u32::MAX) } }
/// Explore every feasible value of `v` on a path of its own.
#[inline(always)]
pub fn fix(v: u64) -> u64 { unsafe { __sym_fix(v) } }
/// A number in lo..=hi, each on a path of its own.
#[inline(always)]
pub fn any_fixed(lo: u64, hi: u64) -> u64 { let v = any_u64(); assume(v >= lo && v <= hi); fix(v) }
/// A number in lo..=hi.
#[inline(always)]
pub fn any_in(lo: i64, hi: i64) -> i64 { let v = any_i64(); assume(v >= lo && v <= hi); v }
#[inline(always)]
pub fn trace(tag: u32, v: u64) { unsafe { __sym_trace(tag, v) } }

/// Bytes that are ASCII, none of them constrained further.
pub fn ascii(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = any_u8(); assume(b < 128); b }).collect() }
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any_u8()).collect() }
pub fn as_str(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
/// An entry: h!(name { body });
#[macro_export]
macro_rules! h {
    ($n:ident $b:block) => { #[unsafe(no_mangle)] pub extern "C" fn $n() $b };
}
