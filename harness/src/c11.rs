//! C11: per-frame values.
use crate::clb::*;
use crate::vf::*;
use mlx9064x::calculations as k;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;

#[inline(always)]
fn run<Cam: MelexisCamera + 'static>() {
    let c: Clb<Cam, 1> = Clb::any();
    let r = Frame::any();
    let corr = any_f32("resolution_correction@f:0.5:4");
    let em = any_f32("emissivity_used@f:0.5:1");
    let dv = spec_delta_v(&c, r.vdd);
    feq(k::delta_v(&c, r.vdd), dv, "C11.delta_v");
    let x = any_f32("delta_v@f:-1:1");
    feq(k::v_dd(&c, corr, x), spec_v_dd(&c, corr, x), "C11.v_dd");
    feq(k::v_ptat_art(&c, r.ptat, r.v_be), spec_v_ptat_art(&c, r.ptat, r.v_be), "C11.v_ptat_art");
    let y = any_f32("v_ptat_art@f:10000:15000");
    feq(k::ambient_temperature(&c, y, x), spec_t_a(&c, y, x), "C11.ambient_temperature");
    let ram = k::RamData { t_a_v_be: r.v_be, t_a_ptat: r.ptat, v_dd_pixel: r.vdd, gain: r.gain, compensation_pixel: r.cp };
    let got = k::CommonIrData::new(corr, em, &c, &ram);
    let want = spec_common(&c, corr, &r);
    feq(got.gain, want.gain, "C11.common.gain");
    feq(got.v_dd, want.v_dd, "C11.common.v_dd");
    feq(got.t_a, want.t_a, "C11.common.t_a");
    feq(got.emissivity, em, "C11.common.emissivity");
    let ta = any_f32("t_a@f:-40:85");
    let tr = any_f32("t_r@f:-40:85");
    feq(k::sensitivity_correction_coefficient(&c, ta), spec_s_corr(&c, ta), "C11.sensitivity_correction");
    feq(k::t_ar(ta, tr, em), spec_t_ar(ta, tr, em), "C11.t_ar");
    feq(k::t_ar(ta, tr, 1.0), p4(ta + 273.15), "C11.t_ar.black_body_ignores_reflection");
}

crate::harnesses! {
    fn c11_mlx90640() { run::<Mlx90640>() }
    fn c11_mlx90641() { run::<Mlx90641>() }
    /// the exported constants are the datasheet's
    fn c11_constants() {
        check(Mlx90640::BASIC_TEMPERATURE_RANGE == 1 && Mlx90641::BASIC_TEMPERATURE_RANGE == 2, "C11.basic_range");
        check(Mlx90640::SELF_HEATING == 8.0 && Mlx90641::SELF_HEATING == 5.0, "C11.self_heating");
        check(Mlx90640::HEIGHT == 24 && Mlx90640::WIDTH == 32 && Mlx90640::NUM_PIXELS == 768, "C11.size_640");
        check(Mlx90641::HEIGHT == 12 && Mlx90641::WIDTH == 16 && Mlx90641::NUM_PIXELS == 192, "C11.size_641");
        cover(true, "constants");
    }
}
