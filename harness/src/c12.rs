//! C12: the compensated infrared value of every pixel.
use crate::clb::*;
use crate::vf::*;
use mlx9064x::calculations as k;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

#[inline(always)]
fn frame<Cam: MelexisCamera + 'static, const N: usize, const BYTES: usize>(s: usize, p: AccessPattern) {
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let r = Frame::any();
    let corr = any_f32("resolution_correction@f:0.5:4");
    let em = any_f32("emissivity_used@f:0.5:1");
    let mut px = [0u8; BYTES];
    bytes(&mut px, "pixel_data");
    let mut out = [0f32; N];
    f32s(&mut out, "previous image@f:-100:100");
    let mut valid = Cam::pixels_in_subpage(SUBPAGES[s], p).into_iter();
    let ta = k::raw_pixels_to_ir_data(&c, em, corr, &px, ram(&r), SUBPAGES[s], p, &mut valid, &mut out);
    let com = spec_common(&c, corr, &r);
    feq(ta, com.t_a, "C12.returned_ambient_temperature");
    let mut i = 0;
    while i < N {
        if member(Cam::WIDTH, i, s, p) {
            let raw = i16::from_be_bytes([px[2 * i], px[2 * i + 1]]);
            feq(out[i], spec_pixel_ir(&c, &com, em, raw, r.cp, s, p, i), "C12.pixel.compensated_ir");
        }
        i += 1;
    }
}

crate::harnesses! {
    fn c12_one_pixel() {
        let raw = any_i16("raw");
        let com = k::CommonIrData { gain: any_f32("gain@f:0.5:2"), v_dd: any_f32("v_dd@f:3:3.6"), emissivity: any_f32("emissivity@f:0.5:1"), t_a: any_f32("t_a@f:-40:85") };
        let off = any_i16("offset@i:-200:200");
        let (kv, kta) = (any_f32("k_v@f:-1:1"), any_f32("k_ta@f:-0.01:0.01"));
        let comp = any_opt_f32("comp_some", "comp@f:-5:5");
        let spec = Common { gain: com.gain, v_dd: com.v_dd, t_a: com.t_a };
        feq(k::per_pixel_v_ir(raw, &com, off, kv, kta, comp), spec_v_ir(raw, &spec, com.emissivity, off, kv, kta, comp), "C12.per_pixel_v_ir");
    }
    fn c12_640_chess_0() { frame::<Mlx90640, 768, 1536>(0, AccessPattern::Chess) }
    fn c12_640_chess_1() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Chess) }
    fn c12_640_interleave_0() { frame::<Mlx90640, 768, 1536>(0, AccessPattern::Interleave) }
    fn c12_640_interleave_1() { frame::<Mlx90640, 768, 1536>(1, AccessPattern::Interleave) }
    fn c12_641_interleave_0() { frame::<Mlx90641, 192, 384>(0, AccessPattern::Interleave) }
    fn c12_641_interleave_1() { frame::<Mlx90641, 192, 384>(1, AccessPattern::Interleave) }
    fn c12_641_chess_0() { frame::<Mlx90641, 192, 384>(0, AccessPattern::Chess) }
    fn c12_641_chess_1() { frame::<Mlx90641, 192, 384>(1, AccessPattern::Chess) }
}
