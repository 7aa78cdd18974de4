//! C13: the object temperature of every pixel.
use crate::clb::*;
use crate::vf::*;
use mlx9064x::calculations as k;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

#[inline(always)]
fn frame<Cam: MelexisCamera + 'static, const N: usize>(s: usize, p: AccessPattern) {
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let em = any_f32("emissivity_used@f:0.5:1");
    let ta = any_f32("t_a@f:-40:85");
    let tr = any_opt_f32("t_r_some", "t_r@f:-40:85");
    let mut ir = [0f32; N];
    f32s(&mut ir, "infrared image@f:-100:100");
    let mut out = ir;
    let mut valid = Cam::pixels_in_subpage(SUBPAGES[s], p).into_iter();
    k::raw_ir_to_temperatures(&c, em, ta, tr, SUBPAGES[s], &mut valid, &mut out);
    let t_ar = spec_t_ar(ta, spec_reflected::<Cam>(tr, ta), em);
    let mut i = 0;
    while i < N {
        if member(Cam::WIDTH, i, s, p) {
            feq(out[i], spec_t_o(ir[i], spec_alpha(&c, ta, s, i), t_ar, c.k_s_to[basic::<Cam>()]), "C13.pixel.object_temperature");
        }
        i += 1;
    }
}

crate::harnesses! {
    fn c13_one_pixel() {
        let (v, a, t, k_s) = (any_f32("v_ir@f:-100:100"), any_f32("alpha@f:0.00000001:0.0000002"), any_f32("t_ar@f:3000000000:9000000000"), any_f32("k_s_to@f:-0.001:0.001"));
        feq(k::per_pixel_temperature(v, a, t, k_s), spec_t_o(v, a, t, k_s), "C13.per_pixel_temperature");
    }
    fn c13_640_chess_0() { frame::<Mlx90640, 768>(0, AccessPattern::Chess) }
    fn c13_640_chess_1() { frame::<Mlx90640, 768>(1, AccessPattern::Chess) }
    fn c13_640_interleave_0() { frame::<Mlx90640, 768>(0, AccessPattern::Interleave) }
    fn c13_640_interleave_1() { frame::<Mlx90640, 768>(1, AccessPattern::Interleave) }
    fn c13_641_interleave_0() { frame::<Mlx90641, 192>(0, AccessPattern::Interleave) }
    fn c13_641_interleave_1() { frame::<Mlx90641, 192>(1, AccessPattern::Interleave) }
    fn c13_641_chess_0() { frame::<Mlx90641, 192>(0, AccessPattern::Chess) }
    fn c13_641_chess_1() { frame::<Mlx90641, 192>(1, AccessPattern::Chess) }
}
