//! C17: every operation, with each of its transfers failing.
use crate::bus::*;
use crate::clb::*;
use crate::drv::*;
use crate::every_getter;
use crate::every_setting;
use crate::vf::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::{read_ram, CalibrationData, FromI2C, MelexisCamera};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::register::*;
use mlx9064x::{CameraDriver, Error};

/// Contract of a calibration source: one transfer, whose failure it reports; otherwise any calibration.
impl<Cam: MelexisCamera, const N: usize> FromI2C<H> for Clb<Cam, N> {
    type Error = Error<H>;
    type Ok = Self;
    #[inline(never)]
    fn from_i2c(bus: &mut H, i2c_address: u8) -> Result<Self, Error<H>> {
        use embedded_hal::blocking::i2c::WriteRead;
        let mut w = [0u8; 2];
        match bus.write_read(i2c_address, &[0x24, 0], &mut w) {
            Ok(()) => Ok(Clb::any()),
            Err(e) => Err(Error::I2cWriteReadError(e)),
        }
    }
}

/// transfers made: all up to and including the failed one, nothing written on the way
#[inline(always)]
fn stops(b: &Bus, i: usize, writes_before: usize) {
    check(b.n == i + 1, "C17.no_transfer_after_the_failed_one");
    check(!b.stray, "C17.stays_in_the_memory_map");
    let mut k = 0;
    let mut w = 0;
    while k < i && k < LOG {
        if b.log[k].write {
            w += 1;
        }
        k += 1;
    }
    check(w == writes_before, "C17.writes_before_the_failure");
}

#[inline(always)]
fn set<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(fail: usize, reg: usize, mask: u16, bits: u16, f: impl FnOnce(&mut D<Cam, 1, HH, B>) -> Result<(), Error<H>>) {
    let mut b = Bus::any();
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, Clb::any());
    b.control = any_u16("control now");
    let (s0, c0) = (b.status, b.control);
    let old = if reg == STATUS { s0 } else { c0 };
    b.fail_at = fail;
    let r = f(&mut d);
    if fail == 0 {
        check(is_bus_error(&r, false, 0), "C17.set.read_error");
        stops(&b, 0, 0);
    } else if old & mask != bits {
        check(is_bus_error(&r, true, 1), "C17.set.write_error");
        stops(&b, 1, 0);
    }
    check(b.status == s0 && b.control == c0, "C17.set.device_unchanged");
}

#[inline(always)]
fn get<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(f: impl FnOnce(&mut D<Cam, 1, HH, B>, u16) -> Result<bool, Error<H>>) {
    let mut b = Bus::any();
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, Clb::any());
    b.control = any_u16("control now");
    b.fail_at = 0;
    let r = f(&mut d, 0);
    check(is_bus_error(&r, false, 0), "C17.get.read_error");
    stops(&b, 0, 0);
}

#[inline(always)]
fn acknowledge<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(fail: usize) {
    let mut b = Bus::any();
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, Clb::any());
    let s0 = b.status;
    b.fail_at = fail;
    let r = d.reset_data_available();
    check(is_bus_error(&r, fail == 1, fail), "C17.acknowledge.error");
    stops(&b, fail, 0);
    check(b.status == s0, "C17.acknowledge.device_unchanged");
}

#[inline(always)]
fn synchronize<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(fail: usize) {
    let mut b = Bus::any();
    let s0 = b.status;
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, Clb::any());
    b.device = 0x33;
    if fail < 2 {
        b.fail_at = fail;
        let r = d.synchronize();
        check(is_bus_error(&r, fail == 1, fail), "C17.synchronize.error");
        stops(&b, fail, 0);
        check(b.status == s0, "C17.synchronize.device_unchanged");
    } else {
        // any status read of the wait may fail
        b.start_polling = true;
        b.polls_may_fail = true;
        match d.synchronize() {
            Ok(()) => check(b.start_polling, "C17.synchronize.poll_error"),
            Err(Error::I2cWriteReadError(e)) => check(!b.start_polling && e.0 == 0xEE, "C17.synchronize.poll_error"),
            Err(_) => check(false, "C17.synchronize.poll_error"),
        }
        check(b.n == 2, "C17.no_transfer_after_the_failed_one");
        cover(b.start_polling, "the wait ends");
        cover(!b.start_polling, "a poll fails");
    }
}

#[inline(always)]
fn construct<C: for<'a> CalibrationData<'a> + FromI2C<H, Ok = C, Error = Error<H>>, const HH: usize, const B: usize>(fail: usize) {
    let mut b = Bus::any();
    b.fail_at = fail;
    let r: Result<CameraDriver<C, H, HH, B>, _> = CameraDriver::new(H(&mut b), 0x33);
    check(is_bus_error(&r, false, fail), "C17.new.error");
    stops(&b, fail, 0);
}
#[inline(always)]
fn calibration<C: FromI2C<H, Error = Error<H>>>() {
    let mut b = Bus::any();
    b.fail_at = 0;
    let r = C::from_i2c(&mut H(&mut b), 0x33);
    check(is_bus_error(&r, false, 0), "C17.calibration.error");
    stops(&b, 0, 0);
}
#[inline(always)]
fn construct_with<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>() {
    let mut b = Bus::any();
    b.fail_at = 0;
    let r: Result<D<Cam, 1, HH, B>, _> = CameraDriver::new_with_calibration(H(&mut b), 0x33, Clb::any());
    check(is_bus_error(&r, false, 0), "C17.new.error");
    stops(&b, 0, 0);
}

#[inline(always)]
fn registers() {
    let mut b = Bus::any();
    let mut h = H(&mut b);
    macro_rules! one {
        ($t:ty) => {{
            b.reset();
            let v = <$t>::from([any_u8("hi"), any_u8("lo")].as_ref());
            let (s, c, i) = (b.status, b.control, b.i2ccfg);
            b.fail_at = 0;
            let r = <$t>::from_i2c(&mut h, 0x33);
            check(is_bus_error(&r, false, 0), "C17.register.read_error");
            stops(&b, 0, 0);
            b.reset();
            b.fail_at = 0;
            let r = mlx9064x::common::ToI2C::to_i2c(&v, &mut h, 0x33);
            check(is_bus_error(&r, true, 0), "C17.register.write_error");
            stops(&b, 0, 0);
            check(b.status == s && b.control == c && b.i2ccfg == i, "C17.register.device_unchanged");
        }};
    }
    one!(StatusRegister);
    one!(ControlRegister);
    one!(I2cRegister);
}

/// number of transfers of a successful frame read
#[inline(always)]
fn frame_transfers<Cam: MelexisCamera, const HH: usize, const B: usize>(s: usize, p: AccessPattern) -> usize {
    let mut b = Bus::any();
    let mut buf = [0u8; B];
    check(read_ram::<Cam, H, HH>(&mut H(&mut b), 0x33, p, SUBPAGES[s], &mut buf).is_ok(), "C17.read_ram.succeeds_without_failure");
    check(b.n > 0 && b.n < LOG, "C17.read_ram.succeeds_without_failure");
    b.n
}

#[inline(always)]
fn frame_read<Cam: MelexisCamera, const HH: usize, const B: usize>(s: usize, p: AccessPattern) {
    let transfers = frame_transfers::<Cam, HH, B>(s, p);
    let mut f = 0;
    while f < transfers {
        let mut b = Bus::any();
        b.fail_at = f;
        let mut buf = [0u8; B];
        let r = read_ram::<Cam, H, HH>(&mut H(&mut b), 0x33, p, SUBPAGES[s], &mut buf);
        check(is_bus_error(&r, false, f), "C17.read_ram.error");
        stops(&b, f, 0);
        f += 1;
    }
    let mut b = Bus::any();
    check(RamData::from_i2c::<H, Cam>(&mut H(&mut b), 0x33, SUBPAGES[s]).is_ok(), "C17.read_ram.succeeds_without_failure");
    let transfers = b.n;
    let mut f = 0;
    while f < transfers {
        let mut b = Bus::any();
        b.fail_at = f;
        let r = RamData::from_i2c::<H, Cam>(&mut H(&mut b), 0x33, SUBPAGES[s]);
        check(matches!(r, Err(BusError(e)) if e as usize == f), "C17.read_ram.error");
        stops(&b, f, 0);
        f += 1;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Via {
    Raw,
    Subpage,
    Latest,
    Ready,
}

/// each transfer of an image operation fails in turn
#[inline(always)]
fn image<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(s: usize, p: AccessPattern, via: Via) {
    const N: usize = 40;
    let before_frame = if via == Via::Latest || via == Via::Ready { 1 } else { 0 };
    let reads = before_frame + frame_transfers::<Cam, HH, B>(s, p);
    let mut f = 0;
    while f < reads + if via == Via::Ready { 1 } else { 0 } {
        let mut b = Bus::any();
        b.any_ram();
        b.control = b.control & !0x1000 | if p == AccessPattern::Chess { 0x1000 } else { 0 };
        b.status = b.status & !9 | 8 | s as u16;
        let (s0, c0) = (b.status, b.control);
        let mut c: Clb<Cam, N> = Clb::any();
        c.any_pixels();
        let mut d: D<Cam, N, HH, B> = driver(&mut b, 0x33, c);
        let (em, tr) = (any_f32("emissivity override@f:0.5:1"), any_opt_f32("reflected_some", "reflected@f:-40:85"));
        d.override_emissivity(em);
        d.set_reflected_temperature(tr);
        let mut out = [0f32; N];
        // every other time there is no image yet
        if f % 2 == 0 {
            check(d.generate_image_subpage_to(SUBPAGES[s], &mut out).is_ok(), "C17.image.succeeds_without_failure");
        }
        let ta = d.ambient_temperature();
        check(ta.is_some() == (f % 2 == 0), "C17.image.ambient_temperature_kept");
        f32s(&mut out, "previous image@f:-100:100");
        let before = out;
        b.reset();
        b.any_ram();
        b.fail_at = f;
        let failed = match via {
            Via::Raw => is_bus_error(&d.generate_raw_image_subpage_to(SUBPAGES[s], &mut out), false, f),
            Via::Subpage => is_bus_error(&d.generate_image_subpage_to(SUBPAGES[s], &mut out), false, f),
            Via::Latest => is_bus_error(&d.generate_image_to(&mut out), false, f),
            Via::Ready => is_bus_error(&d.generate_image_if_ready(&mut out), f == reads, f),
        };
        check(failed, "C17.image.error");
        stops(&b, f, 0);
        check(b.status == s0 && b.control == c0, "C17.image.not_acknowledged");
        if f < reads {
            let mut i = 0;
            while i < N {
                check(out[i].to_bits() == before[i].to_bits(), "C17.image.destination_kept");
                i += 1;
            }
            let now = d.ambient_temperature();
            check(now.is_some() == ta.is_some(), "C17.image.ambient_temperature_kept");
            if let (Some(x), Some(y)) = (now, ta) {
                feq(x, y, "C17.image.ambient_temperature_kept");
            }
        }
        feq(d.effective_emissivity(), em, "C17.image.settings_kept");
        check(d.reflected_temperature().map(|t| t.to_bits()) == tr.map(|t| t.to_bits()), "C17.image.settings_kept");
        f += 1;
    }
}

crate::harnesses! {
    fn c17_settings_640() {
        macro_rules! s0 { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90640, 24, 1536>(0, $r, $m, $b, $f) }; }
        macro_rules! s1 { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90640, 24, 1536>(1, $r, $m, $b, $f) }; }
        macro_rules! g { ($r:expr, $f:expr) => { get::<Mlx90640, 24, 1536>($f) }; }
        every_setting!(s0);
        every_setting!(s1);
        every_getter!(g);
    }
    fn c17_settings_641() {
        macro_rules! s0 { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90641, 12, 384>(0, $r, $m, $b, $f) }; }
        macro_rules! s1 { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90641, 12, 384>(1, $r, $m, $b, $f) }; }
        macro_rules! g { ($r:expr, $f:expr) => { get::<Mlx90641, 12, 384>($f) }; }
        every_setting!(s0);
        every_setting!(s1);
        every_getter!(g);
    }
    fn c17_acknowledge() {
        acknowledge::<Mlx90640, 24, 1536>(0);
        acknowledge::<Mlx90640, 24, 1536>(1);
        acknowledge::<Mlx90641, 12, 384>(0);
        acknowledge::<Mlx90641, 12, 384>(1);
    }
    fn c17_synchronize_640() {
        synchronize::<Mlx90640, 24, 1536>(0);
        synchronize::<Mlx90640, 24, 1536>(1);
        synchronize::<Mlx90640, 24, 1536>(2);
    }
    fn c17_synchronize_641() {
        synchronize::<Mlx90641, 12, 384>(0);
        synchronize::<Mlx90641, 12, 384>(1);
        synchronize::<Mlx90641, 12, 384>(2);
    }
    fn c17_construct() {
        calibration::<Mlx90640Calibration>();
        calibration::<Mlx90641Calibration>();
        construct::<Clb<Mlx90640, 1>, 24, 1536>(0);
        construct::<Clb<Mlx90640, 1>, 24, 1536>(1);
        construct::<Clb<Mlx90641, 1>, 12, 384>(0);
        construct::<Clb<Mlx90641, 1>, 12, 384>(1);
        construct_with::<Mlx90640, 24, 1536>();
        construct_with::<Mlx90641, 12, 384>();
    }
    fn c17_registers() { registers() }
    fn c17_frame_read_640() {
        frame_read::<Mlx90640, 24, 1536>(0, AccessPattern::Chess);
        frame_read::<Mlx90640, 24, 1536>(1, AccessPattern::Chess);
        frame_read::<Mlx90640, 24, 1536>(0, AccessPattern::Interleave);
        frame_read::<Mlx90640, 24, 1536>(1, AccessPattern::Interleave);
    }
    fn c17_frame_read_641() {
        frame_read::<Mlx90641, 12, 384>(0, AccessPattern::Chess);
        frame_read::<Mlx90641, 12, 384>(1, AccessPattern::Chess);
        frame_read::<Mlx90641, 12, 384>(0, AccessPattern::Interleave);
        frame_read::<Mlx90641, 12, 384>(1, AccessPattern::Interleave);
    }
    fn c17_image_640_chess_raw() { image::<Mlx90640, 24, 1536>(0, AccessPattern::Chess, Via::Raw) }
    fn c17_image_640_chess_subpage() { image::<Mlx90640, 24, 1536>(1, AccessPattern::Chess, Via::Subpage) }
    fn c17_image_640_chess_latest() { image::<Mlx90640, 24, 1536>(0, AccessPattern::Chess, Via::Latest) }
    fn c17_image_640_chess_ready() { image::<Mlx90640, 24, 1536>(1, AccessPattern::Chess, Via::Ready) }
    fn c17_image_640_interleave_raw() { image::<Mlx90640, 24, 1536>(1, AccessPattern::Interleave, Via::Raw) }
    fn c17_image_640_interleave_subpage() { image::<Mlx90640, 24, 1536>(0, AccessPattern::Interleave, Via::Subpage) }
    fn c17_image_640_interleave_latest() { image::<Mlx90640, 24, 1536>(1, AccessPattern::Interleave, Via::Latest) }
    fn c17_image_640_interleave_ready() { image::<Mlx90640, 24, 1536>(0, AccessPattern::Interleave, Via::Ready) }
    fn c17_image_641_chess_raw() { image::<Mlx90641, 12, 384>(0, AccessPattern::Chess, Via::Raw) }
    fn c17_image_641_interleave_subpage() { image::<Mlx90641, 12, 384>(1, AccessPattern::Interleave, Via::Subpage) }
    fn c17_image_641_interleave_latest() { image::<Mlx90641, 12, 384>(0, AccessPattern::Interleave, Via::Latest) }
    fn c17_image_641_chess_ready() { image::<Mlx90641, 12, 384>(1, AccessPattern::Chess, Via::Ready) }
    fn c17_image_641_interleave_ready() { image::<Mlx90641, 12, 384>(0, AccessPattern::Interleave, Via::Ready) }
}
