//! C15: the driver's images over the current memory, calibration and settings.
use crate::bus::*;
use crate::clb::*;
use crate::drv::*;
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

/// A driver in an arbitrary reachable state: any settings, frame buffer left over from an earlier
/// (failed) transfer, any earlier image.  `p` is the pattern the camera is set to.
#[inline(always)]
fn any_state<Cam: MelexisCamera + 'static, const N: usize, const HH: usize, const B: usize>(b: &mut Bus, c: Clb<Cam, N>, p: AccessPattern) -> (D<Cam, N, HH, B>, f32, Option<f32>) {
    let mut d: D<Cam, N, HH, B> = driver(b, 0x33, c);
    let raw = b as *mut Bus;
    let mut scrap = [0f32; 1];
    check(d.generate_raw_image_subpage_to(Subpage::One, &mut scrap).is_ok(), "C15.image.succeeds");
    // the first transfer of the next read fails and leaves garbage in the frame buffer
    let b = unsafe { &mut *raw };
    b.n = 0;
    b.fail_at = 0;
    let _ = d.generate_raw_image_subpage_to(Subpage::Zero, &mut scrap);
    b.fail_at = NEVER;
    b.control = b.control & !0x1000 | if p == AccessPattern::Chess { 0x1000 } else { 0 };
    let cached = d.access_pattern();
    check(cached.is_ok(), "C15.image.succeeds");
    let em = any_f32("emissivity override@f:0.5:1");
    let tr = any_opt_f32("reflected_some", "reflected@f:-40:85");
    d.override_emissivity(em);
    d.set_reflected_temperature(tr);
    b.reset();
    b.any_ram();
    (d, em, tr)
}

#[derive(Clone, Copy, PartialEq)]
enum Via {
    Raw,
    Subpage,
    Latest,
}

#[inline(always)]
fn image<Cam: MelexisCamera + 'static, const N: usize, const HH: usize, const B: usize>(s: usize, p: AccessPattern, via: Via) {
    let mut b = Bus::any();
    b.any_ram();
    b.control |= 0x1000;
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let k = unsafe { core::ptr::read(&c) };
    let (mut d, em, tr): (D<Cam, N, HH, B>, f32, Option<f32>) = any_state(&mut b, c, p);
    if via == Via::Latest {
        b.status = b.status & !1 | s as u16;
    }
    let mut out = [0f32; N];
    f32s(&mut out, "previous image@f:-100:100");
    let before = out;
    let res = match via {
        Via::Raw => d.generate_raw_image_subpage_to(SUBPAGES[s], &mut out),
        Via::Subpage => d.generate_image_subpage_to(SUBPAGES[s], &mut out),
        Via::Latest => d.generate_image_to(&mut out),
    };
    check(res.is_ok(), "C15.image.succeeds");
    let r = frame_words(&b, Cam::WIDTH, s);
    let com = spec_common(&k, correction(k.resolution, b.control), &r);
    match d.ambient_temperature() {
        Some(t) => feq(t, com.t_a, "C15.ambient_temperature_of_this_frame"),
        None => check(false, "C15.ambient_temperature_of_this_frame"),
    }
    let t_ar = spec_t_ar(com.t_a, spec_reflected::<Cam>(tr, com.t_a), em);
    let mut i = 0;
    while i < N {
        if member(Cam::WIDTH, i, s, p) {
            let ir = spec_pixel_ir(&k, &com, em, b.word(pixel_addr(Cam::WIDTH, i, s)), r.cp, s, p, i);
            let want = if via == Via::Raw { ir } else { spec_t_o(ir, spec_alpha(&k, com.t_a, s, i), t_ar, k.k_s_to[basic::<Cam>()]) };
            feq(out[i], want, "C15.pixel.from_memory_calibration_and_settings");
        } else {
            check(out[i].to_bits() == before[i].to_bits(), "C15.pixel.other_subpage_unchanged");
        }
        i += 1;
    }
    // producing an image changes no setting
    feq(d.effective_emissivity(), em, "C15.settings_kept");
    let kept = d.reflected_temperature();
    check(kept.is_some() == tr.is_some(), "C15.settings_kept");
    if let (Some(x), Some(y)) = (kept, tr) {
        feq(x, y, "C15.settings_kept");
    }
    let mut i = 0;
    while i < b.n {
        check(!b.log[i].write && b.log[i].device == 0x33, "C15.image.only_reads_the_camera");
        i += 1;
    }
}

#[inline(always)]
fn fresh<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>() {
    let mut b = Bus::any();
    b.any_ram();
    let first = b.control;
    let c: Clb<Cam, 1> = Clb::any();
    let k = unsafe { core::ptr::read(&c) };
    let dev = any_u8("device");
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, dev, c);
    let stored = match k.emissivity {
        Some(e) => e,
        None => 1.0,
    };
    check(d.ambient_temperature().is_none(), "C15.no_ambient_temperature_before_an_image");
    check(d.reflected_temperature().is_none(), "C15.reflected_temperature.default");
    feq(d.effective_emissivity(), stored, "C15.emissivity.default");
    let (x, y) = (any_f32("first override@f:0.5:1"), any_f32("second override@f:0.5:1"));
    d.override_emissivity(x);
    feq(d.effective_emissivity(), x, "C15.emissivity.override");
    d.override_emissivity(y);
    feq(d.effective_emissivity(), y, "C15.emissivity.override");
    d.use_default_emissivity();
    feq(d.effective_emissivity(), stored, "C15.emissivity.override_undone");
    d.set_reflected_temperature(Some(x));
    match d.reflected_temperature() {
        Some(t) => feq(t, x, "C15.reflected_temperature.set"),
        None => check(false, "C15.reflected_temperature.set"),
    }
    d.set_reflected_temperature(None);
    check(d.reflected_temperature().is_none(), "C15.reflected_temperature.cleared");
    check(d.ambient_temperature().is_none(), "C15.no_ambient_temperature_before_an_image");
    check(d.width() == if B == 1536 { 32 } else { 16 } && d.height() == if B == 1536 { 24 } else { 12 }, "C15.dimensions");
    check(b.n == 0 && b.control == first, "C15.emissivity.no_transfers");
}

crate::harnesses! {
    fn c15_settings_640() { fresh::<Mlx90640, 24, 1536>() }
    fn c15_settings_641() { fresh::<Mlx90641, 12, 384>() }
    fn c15_640_raw_chess_0() { image::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Chess, Via::Raw) }
    fn c15_640_raw_chess_1() { image::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Chess, Via::Raw) }
    fn c15_640_raw_interleave_0() { image::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Interleave, Via::Raw) }
    fn c15_640_raw_interleave_1() { image::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Interleave, Via::Raw) }
    fn c15_640_temp_chess_0() { image::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Chess, Via::Subpage) }
    fn c15_640_temp_chess_1() { image::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Chess, Via::Subpage) }
    fn c15_640_temp_interleave_0() { image::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Interleave, Via::Subpage) }
    fn c15_640_temp_interleave_1() { image::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Interleave, Via::Subpage) }
    fn c15_640_latest_chess_0() { image::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Chess, Via::Latest) }
    fn c15_640_latest_interleave_1() { image::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Interleave, Via::Latest) }
    fn c15_641_raw_chess_0() { image::<Mlx90641, 192, 12, 384>(0, AccessPattern::Chess, Via::Raw) }
    fn c15_641_raw_interleave_1() { image::<Mlx90641, 192, 12, 384>(1, AccessPattern::Interleave, Via::Raw) }
    fn c15_641_temp_chess_0() { image::<Mlx90641, 192, 12, 384>(0, AccessPattern::Chess, Via::Subpage) }
    fn c15_641_temp_chess_1() { image::<Mlx90641, 192, 12, 384>(1, AccessPattern::Chess, Via::Subpage) }
    fn c15_641_temp_interleave_0() { image::<Mlx90641, 192, 12, 384>(0, AccessPattern::Interleave, Via::Subpage) }
    fn c15_641_temp_interleave_1() { image::<Mlx90641, 192, 12, 384>(1, AccessPattern::Interleave, Via::Subpage) }
    fn c15_641_latest_chess_1() { image::<Mlx90641, 192, 12, 384>(1, AccessPattern::Chess, Via::Latest) }
    fn c15_641_latest_interleave_0() { image::<Mlx90641, 192, 12, 384>(0, AccessPattern::Interleave, Via::Latest) }
}
