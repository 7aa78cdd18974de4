//! C14: frame conditions of the image functions, and one pass against two steps.
use crate::clb::*;
use crate::vf::*;
use mlx9064x::calculations as k;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

#[inline(always)]
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

/// destination of the first `len` elements of a buffer with `N` elements
#[inline(always)]
fn frame<Cam: MelexisCamera + 'static, const N: usize, const BYTES: usize>(s: usize, p: AccessPattern, len: usize) {
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let r = Frame::any();
    let corr = any_f32("resolution_correction@f:0.5:4");
    let em = any_f32("emissivity_used@f:0.5:1");
    let tr = any_opt_f32("t_r_some", "t_r@f:-40:85");
    let mut px = [0u8; BYTES];
    bytes(&mut px, "pixel_data");
    let mut before = [0f32; N];
    f32s(&mut before, "previous image@f:-100:100");
    let (sp, w) = (SUBPAGES[s], Cam::WIDTH);

    let mut two = before;
    let ta2 = k::raw_pixels_to_ir_data(&c, em, corr, &px, ram(&r), sp, p, &mut Cam::pixels_in_subpage(sp, p).into_iter(), &mut two[..len]);
    let mut i = 0;
    while i < N {
        if i >= len || !member(w, i, s, p) {
            check(same(two[i], before[i]), "C14.infrared.other_elements_unchanged");
        }
        i += 1;
    }
    let ir = two;
    k::raw_ir_to_temperatures(&c, em, ta2, tr, sp, &mut Cam::pixels_in_subpage(sp, p).into_iter(), &mut two[..len]);
    let mut i = 0;
    while i < N {
        if i >= len || !member(w, i, s, p) {
            check(same(two[i], ir[i]), "C14.conversion.other_elements_unchanged");
        }
        i += 1;
    }
    let mut one = before;
    let ta1 = k::raw_pixels_to_temperatures(&c, em, tr, corr, &px, ram(&r), sp, p, &mut Cam::pixels_in_subpage(sp, p).into_iter(), &mut one[..len]);
    feq(ta1, ta2, "C14.one_pass_equals_two_steps.ambient_temperature");
    let mut i = 0;
    while i < N {
        if i >= len || !member(w, i, s, p) {
            check(same(one[i], before[i]), "C14.temperatures.other_elements_unchanged");
        } else {
            feq(one[i], two[i], "C14.one_pass_equals_two_steps.pixel");
        }
        i += 1;
    }
}

/// any membership sequence at all, and pixel data shorter than the destination
#[inline(always)]
fn masked<Cam: MelexisCamera + 'static>(data: usize) {
    const N: usize = 6;
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let r = Frame::any();
    let corr = any_f32("resolution_correction@f:0.5:4");
    let em = any_f32("emissivity_used@f:0.5:1");
    let tr = any_opt_f32("t_r_some", "t_r@f:-40:85");
    let px: [u8; 12] = any_bytes("pixel_data");
    let mask: [u8; N] = any_bytes("members");
    let mut before = [0f32; N];
    f32s(&mut before, "previous image@f:-100:100");
    let (sp, p) = (Subpage::One, AccessPattern::Chess);
    let mut two = before;
    let ta2 = k::raw_pixels_to_ir_data(&c, em, corr, &px[..data * 2], ram(&r), sp, p, &mut mask.iter().map(|b| b & 1 == 1), &mut two);
    let mut one = before;
    let ta1 = k::raw_pixels_to_temperatures(&c, em, tr, corr, &px[..data * 2], ram(&r), sp, p, &mut mask.iter().map(|b| b & 1 == 1), &mut one);
    feq(ta1, ta2, "C14.one_pass_equals_two_steps.ambient_temperature");
    let ir = two;
    k::raw_ir_to_temperatures(&c, em, ta2, tr, sp, &mut mask.iter().map(|b| b & 1 == 1), &mut two[..data]);
    let mut i = 0;
    while i < N {
        if i < data && mask[i] & 1 == 1 {
            feq(one[i], two[i], "C14.one_pass_equals_two_steps.pixel");
        } else {
            check(same(ir[i], before[i]), "C14.infrared.other_elements_unchanged");
            check(same(one[i], before[i]), "C14.temperatures.other_elements_unchanged");
            check(same(two[i], before[i]), "C14.conversion.other_elements_unchanged");
        }
        i += 1;
    }
}

crate::harnesses! {
    fn c14_640_chess_0() { frame::<Mlx90640, 768, 1536>(0, AccessPattern::Chess, 768) }
    fn c14_640_chess_1() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Chess, 768) }
    fn c14_640_interleave_0() { frame::<Mlx90640, 768, 1536>(0, AccessPattern::Interleave, 768) }
    fn c14_640_interleave_1() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Interleave, 768) }
    fn c14_641_interleave_0() { frame::<Mlx90641, 192, 384>(0, AccessPattern::Interleave, 192) }
    fn c14_641_interleave_1() { frame::<Mlx90641, 192, 384>(1, AccessPattern::Interleave, 192) }
    fn c14_641_chess_0() { frame::<Mlx90641, 192, 384>(0, AccessPattern::Chess, 192) }
    fn c14_641_chess_1() { frame::<Mlx90641, 192, 384>(1, AccessPattern::Chess, 192) }
    fn c14_640_short_0() { frame::<Mlx90640, 768, 1536>(0, AccessPattern::Chess, 0) }
    fn c14_640_short_1() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Interleave, 1) }
    fn c14_640_short_33() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Chess, 33) }
    fn c14_640_short_767() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Chess, 767) }
    fn c14_641_short_17() { frame::<Mlx90641, 192, 384>(1, AccessPattern::Interleave, 17) }
    fn c14_641_short_191() { frame::<Mlx90641, 192, 384>(0, AccessPattern::Interleave, 191) }
    fn c14_640_any_members() { masked::<Mlx90640>(6) }
    fn c14_641_any_members() { masked::<Mlx90641>(6) }
    fn c14_640_short_data() { masked::<Mlx90640>(4) }
    fn c14_641_short_data() { masked::<Mlx90641>(4) }
}
