//! The verification shim.  Under the VC generator `vf_any` introduces universally quantified
//! inputs and `vf_check` an obligation; in the native replay binary the same functions read a
//! recorded counterexample (or random inputs) and report the first check that fails.
use mlx9064x::register::{AccessPattern, FrameRate, Resolution, Subpage};

extern "C" {
    fn vf_any(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vf_check(c: bool, name: *const u8, nl: usize);
    fn vf_assume(c: bool);
    fn vf_cover(c: bool, name: *const u8, nl: usize);
    fn vf_fn(x: u16, name: *const u8, nl: usize) -> u16;
    fn vf_feq(a: f32, b: f32, name: *const u8, nl: usize);
}

#[inline(always)]
pub fn check(c: bool, name: &'static str) {
    unsafe { vf_check(c, name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
#[inline(always)]
pub fn cover(c: bool, name: &'static str) {
    unsafe { vf_cover(c, name.as_ptr(), name.len()) }
}
/// A function of `x` nothing else is known about (only for the bodies of contracts, never run).
#[inline(always)]
pub fn function(x: u16, name: &'static str) -> u16 {
    unsafe { vf_fn(x, name.as_ptr(), name.len()) }
}
/// Same float (bit for bit in the proof, within rounding when replayed natively).
#[inline(always)]
pub fn feq(a: f32, b: f32, name: &'static str) {
    unsafe { vf_feq(a, b, name.as_ptr(), name.len()) }
}

#[inline(always)]
pub fn bytes(buf: &mut [u8], name: &'static str) {
    unsafe { vf_any(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn any_bytes<const N: usize>(name: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    bytes(&mut b, name);
    b
}
#[inline(always)]
pub fn any_u8(name: &'static str) -> u8 {
    any_bytes::<1>(name)[0]
}
#[inline(always)]
pub fn any_bool(name: &'static str) -> bool {
    any_u8(name) & 1 == 1
}
#[inline(always)]
pub fn any_u16(name: &'static str) -> u16 {
    u16::from_le_bytes(any_bytes(name))
}
#[inline(always)]
pub fn any_i16(name: &'static str) -> i16 {
    i16::from_le_bytes(any_bytes(name))
}
#[inline(always)]
pub fn any_u32(name: &'static str) -> u32 {
    u32::from_le_bytes(any_bytes(name))
}
#[inline(always)]
pub fn any_f32(name: &'static str) -> f32 {
    f32::from_bits(any_u32(name))
}
#[inline(always)]
pub fn f32s(buf: &mut [f32], name: &'static str) {
    unsafe { vf_any(buf.as_mut_ptr() as *mut u8, buf.len() * 4, name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn i16s(buf: &mut [i16], name: &'static str) {
    unsafe { vf_any(buf.as_mut_ptr() as *mut u8, buf.len() * 2, name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn any_opt_f32(some: &'static str, name: &'static str) -> Option<f32> {
    let v = any_f32(name);
    if any_bool(some) {
        Some(v)
    } else {
        None
    }
}

pub const SUBPAGES: [Subpage; 2] = [Subpage::Zero, Subpage::One];
pub const PATTERNS: [AccessPattern; 2] = [AccessPattern::Chess, AccessPattern::Interleave];
pub const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];
pub const RESOLUTIONS: [Resolution; 4] = [
    Resolution::Sixteen,
    Resolution::Seventeen,
    Resolution::Eighteen,
    Resolution::Nineteen,
];

/// Entry points, callable by name from the generator and from the replay binary.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// the `bits` low bits of `v` as a two's complement number
#[inline(always)]
pub fn signed(v: u32, bits: u32) -> i32 {
    ((v << (32 - bits)) as i32) >> (32 - bits)
}

#[inline(always)]
pub fn pow2(e: u32) -> f32 {
    (e as f32).exp2()
}
