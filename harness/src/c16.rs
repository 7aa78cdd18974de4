//! C16: the measurement hand-shake through the status register.
use crate::bus::*;
use crate::clb::*;
use crate::drv::*;
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

/// new data flagged, of subpage `s`
#[inline(always)]
fn ready<Cam: MelexisCamera + 'static, const N: usize, const HH: usize, const B: usize>(s: usize, p: AccessPattern) {
    let mut b = Bus::any();
    b.any_ram();
    b.control = b.control & !0x1000 | if p == AccessPattern::Chess { 0x1000 } else { 0 };
    let (status, control) = (b.status & !9 | 8 | s as u16, b.control);
    b.status = status;
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let k = unsafe { core::ptr::read(&c) };
    let dev = any_u8("device");
    let mut d: D<Cam, N, HH, B> = driver(&mut b, dev, c);
    let em = any_f32("emissivity override@f:0.5:1");
    let tr = any_opt_f32("reflected_some", "reflected@f:-40:85");
    d.override_emissivity(em);
    d.set_reflected_temperature(tr);
    let mut out = [0f32; N];
    f32s(&mut out, "previous image@f:-100:100");
    let before = out;
    match d.generate_image_if_ready(&mut out) {
        Ok(done) => check(done, "C16.if_ready.reports_the_frame"),
        Err(_) => check(false, "C16.if_ready.reports_the_frame"),
    }
    // the image is that of the subpage the status names
    let r = frame_words(&b, Cam::WIDTH, s);
    let com = spec_common(&k, correction(k.resolution, control), &r);
    match d.ambient_temperature() {
        Some(t) => feq(t, com.t_a, "C16.if_ready.ambient_temperature_of_this_frame"),
        None => check(false, "C16.if_ready.ambient_temperature_of_this_frame"),
    }
    let t_ar = spec_t_ar(com.t_a, spec_reflected::<Cam>(tr, com.t_a), em);
    let mut i = 0;
    while i < N {
        if member(Cam::WIDTH, i, s, p) {
            let ir = spec_pixel_ir(&k, &com, em, b.word(pixel_addr(Cam::WIDTH, i, s)), r.cp, s, p, i);
            feq(out[i], spec_t_o(ir, spec_alpha(&k, com.t_a, s, i), t_ar, k.k_s_to[basic::<Cam>()]), "C16.if_ready.image_of_the_flagged_subpage");
        } else {
            check(out[i].to_bits() == before[i].to_bits(), "C16.if_ready.other_subpage_unchanged");
        }
        i += 1;
    }
    // the transfers: status, the frame, and the acknowledgement last
    check(b.n >= 2 && b.n < LOG && !b.stray, "C16.if_ready.transfers");
    let mut i = 0;
    while i < b.n {
        let o = b.log[i];
        check(o.device == dev, "C16.if_ready.transfers");
        if i == 0 {
            check(!o.write && o.reg == STATUS, "C16.if_ready.reads_the_status_first");
        } else if i + 1 < b.n {
            check(!o.write && o.reg < 0x0800, "C16.if_ready.acknowledges_after_the_frame_was_read");
        } else {
            check(o.write && o.reg == STATUS && o.data == status & !8, "C16.if_ready.clears_only_the_new_data_flag");
        }
        i += 1;
    }
    check(b.status == status & !8 && b.control == control, "C16.if_ready.clears_only_the_new_data_flag");
    // consumed: a second call without a new measurement does nothing
    b.reset();
    let image = out;
    match d.generate_image_if_ready(&mut out) {
        Ok(done) => check(!done, "C16.if_ready.frame_consumed_once"),
        Err(_) => check(false, "C16.if_ready.frame_consumed_once"),
    }
    check(b.n == 1 && !b.log[0].write && b.status == status & !8, "C16.if_ready.frame_consumed_once");
    let mut i = 0;
    while i < N {
        check(out[i].to_bits() == image[i].to_bits(), "C16.if_ready.frame_consumed_once");
        i += 1;
    }
}

#[inline(always)]
fn not_ready<Cam: MelexisCamera + 'static, const N: usize, const HH: usize, const B: usize>() {
    let mut b = Bus::any();
    b.any_ram();
    let (status, control) = (b.status & !8, b.control);
    b.status = status;
    let mut c: Clb<Cam, N> = Clb::any();
    c.any_pixels();
    let dev = any_u8("device");
    let mut d: D<Cam, N, HH, B> = driver(&mut b, dev, c);
    let mut out = [0f32; N];
    f32s(&mut out, "previous image@f:-100:100");
    let before = out;
    match d.generate_image_if_ready(&mut out) {
        Ok(done) => check(!done, "C16.not_ready.reports_no_frame"),
        Err(_) => check(false, "C16.not_ready.reports_no_frame"),
    }
    check(b.n == 1 && !b.stray, "C16.not_ready.only_reads_the_status");
    let o = b.log[0];
    check(!o.write && o.reg == STATUS && o.len == 2 && o.device == dev, "C16.not_ready.only_reads_the_status");
    check(b.status == status && b.control == control, "C16.not_ready.only_reads_the_status");
    check(d.ambient_temperature().is_none(), "C16.not_ready.nothing_changes");
    let mut i = 0;
    while i < N {
        check(out[i].to_bits() == before[i].to_bits(), "C16.not_ready.nothing_changes");
        i += 1;
    }
}

#[inline(always)]
fn acknowledge<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>() {
    let mut b = Bus::any();
    let (status, control) = (b.status, b.control);
    let c: Clb<Cam, 1> = Clb::any();
    let dev = any_u8("device");
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, dev, c);
    match d.data_available() {
        Ok(Some(s)) => check(status & 8 != 0 && s as u16 == status & 1, "C16.data_available"),
        Ok(None) => check(status & 8 == 0, "C16.data_available"),
        Err(_) => check(false, "C16.data_available"),
    }
    check(b.n == 1 && !b.log[0].write && b.log[0].reg == STATUS, "C16.data_available.only_reads_the_status");
    b.reset();
    check(d.reset_data_available().is_ok(), "C16.acknowledge.succeeds");
    check(b.n == 2 && !b.stray, "C16.acknowledge.transfers");
    let (r, w) = (b.log[0], b.log[1]);
    check(!r.write && r.reg == STATUS && r.device == dev && w.write && w.reg == STATUS && w.device == dev, "C16.acknowledge.transfers");
    check(w.data == status & !8 && b.status == status & !8 && b.control == control, "C16.acknowledge.clears_only_the_new_data_flag");
}

/// The wait is a loop with no bound: the generator closes it by induction (evidence: loops).
#[inline(always)]
fn wait<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>() {
    let mut b = Bus::any();
    let (status, control) = (b.status, b.control);
    let c: Clb<Cam, 1> = Clb::any();
    let dev = any_u8("device");
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, dev, c);
    b.start_polling = true;
    b.device = dev;
    let res = d.synchronize();
    check(res.is_ok(), "C16.synchronize.succeeds");
    check(b.n == 2 && !b.stray, "C16.synchronize.starts_one_measurement");
    let (r, w) = (b.log[0], b.log[1]);
    check(!r.write && r.reg == STATUS && r.device == dev && w.write && w.reg == STATUS && w.device == dev, "C16.synchronize.starts_one_measurement");
    check(w.data == status & !8 | 0x30, "C16.synchronize.flag_cleared_overwrite_enabled_other_bits_kept");
    check(b.polling && b.last & 8 != 0, "C16.synchronize.returns_only_when_the_status_shows_new_data");
    check(b.control == control && d.ambient_temperature().is_none(), "C16.synchronize.nothing_else");
    cover(b.last & 1 == 1, "synchronize returns");
}

crate::harnesses! {
    fn c16_ready_640_chess_0() { ready::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Chess) }
    fn c16_ready_640_chess_1() { ready::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Chess) }
    fn c16_ready_640_interleave_0() { ready::<Mlx90640, 768, 24, 1536>(0, AccessPattern::Interleave) }
    fn c16_ready_640_interleave_1() { ready::<Mlx90640, 768, 24, 1536>(1, AccessPattern::Interleave) }
    fn c16_ready_641_chess_0() { ready::<Mlx90641, 192, 12, 384>(0, AccessPattern::Chess) }
    fn c16_ready_641_chess_1() { ready::<Mlx90641, 192, 12, 384>(1, AccessPattern::Chess) }
    fn c16_ready_641_interleave_0() { ready::<Mlx90641, 192, 12, 384>(0, AccessPattern::Interleave) }
    fn c16_ready_641_interleave_1() { ready::<Mlx90641, 192, 12, 384>(1, AccessPattern::Interleave) }
    fn c16_not_ready_640() { not_ready::<Mlx90640, 768, 24, 1536>() }
    fn c16_not_ready_641() { not_ready::<Mlx90641, 192, 12, 384>() }
    fn c16_acknowledge_640() { acknowledge::<Mlx90640, 24, 1536>() }
    fn c16_acknowledge_641() { acknowledge::<Mlx90641, 12, 384>() }
    fn c16_synchronize_640() { wait::<Mlx90640, 24, 1536>() }
    fn c16_synchronize_641() { wait::<Mlx90641, 12, 384>() }
}
