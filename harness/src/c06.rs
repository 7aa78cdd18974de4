//! C06: what a frame read and a calibration read transfer.
use crate::bus::*;
use crate::vf::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::{read_ram, FromI2C, MelexisCamera};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::register::*;

/// datasheet memory maps
const AUX_640: [usize; 5] = [0x0700, 0x0720, 0x072A, 0x070A, 0x0708];
const AUX_641: [usize; 5] = [0x0580, 0x05A0, 0x05AA, 0x058A, 0x0588];
fn aux(w: usize, s: usize) -> [usize; 5] {
    let mut a = if w == 32 { AUX_640 } else { AUX_641 };
    if s == 1 {
        a[4] += 0x20;
    }
    a
}
/// address of the RAM word of pixel `i` in subpage `s`
fn pixel_addr(w: usize, i: usize, s: usize) -> usize {
    if w == 32 {
        0x0400 + i
    } else {
        0x0400 + i / 32 * 64 + s * 32 + i % 32
    }
}
fn wanted(w: usize, i: usize, s: usize, p: AccessPattern) -> bool {
    let (r, c) = (i / w, i % w);
    w == 16 || if p == AccessPattern::Chess { (r + c) % 2 == s } else { r % 2 == s }
}

#[inline(always)]
fn frame<C: MelexisCamera, const HEIGHT: usize, const BYTES: usize>(s: usize, p: AccessPattern) {
    let mut b = Bus::any();
    b.any_ram();
    let dev = any_u8("device");
    let mut buf = [0u8; BYTES];
    bytes(&mut buf, "previous frame buffer");
    let mut h = H(&mut b);
    let r = read_ram::<C, H, HEIGHT>(&mut h, dev, p, SUBPAGES[s], &mut buf);
    let a = aux(C::WIDTH, s);
    match r {
        Ok(d) => {
            check(d.t_a_v_be == b.word(a[0]), "C06.aux.v_be");
            check(d.t_a_ptat == b.word(a[1]), "C06.aux.ptat");
            check(d.v_dd_pixel == b.word(a[2]), "C06.aux.v_dd");
            check(d.gain == b.word(a[3]), "C06.aux.gain");
            check(d.compensation_pixel == b.word(a[4]), "C06.aux.compensation_pixel_of_subpage");
        }
        Err(_) => check(false, "C06.no_error_without_bus_failure"),
    }
    let mut i = 0;
    while i < C::NUM_PIXELS {
        if wanted(C::WIDTH, i, s, p) {
            let got = i16::from_be_bytes([buf[2 * i], buf[2 * i + 1]]);
            check(got == b.word(pixel_addr(C::WIDTH, i, s)), "C06.pixel.word_of_pixel_and_subpage");
        }
        i += 1;
    }
    check(!b.stray, "C06.only_reads_camera_ram");
    let mut i = 0;
    while i < b.n {
        let o = b.log[i];
        check(!o.write, "C06.no_writes");
        check(o.device == dev, "C06.bus_address");
        check(o.reg >= RAM && o.reg * 2 + o.len <= (RAM + 1024) * 2, "C06.only_reads_camera_ram");
        i += 1;
    }
}

#[inline(always)]
fn auxdata<C: MelexisCamera>() {
    let mut s = 0;
    while s < 2 {
        let mut b = Bus::any();
        b.any_ram();
        let dev = any_u8("device");
        let mut h = H(&mut b);
        let r = RamData::from_i2c::<H, C>(&mut h, dev, SUBPAGES[s]);
        let a = aux(C::WIDTH, s);
        match r {
            Ok(d) => {
                check(d.t_a_v_be == b.word(a[0]), "C06.aux.v_be");
                check(d.t_a_ptat == b.word(a[1]), "C06.aux.ptat");
                check(d.v_dd_pixel == b.word(a[2]), "C06.aux.v_dd");
                check(d.gain == b.word(a[3]), "C06.aux.gain");
                check(d.compensation_pixel == b.word(a[4]), "C06.aux.compensation_pixel_of_subpage");
            }
            Err(_) => check(false, "C06.no_error_without_bus_failure"),
        }
        s += 1;
    }
}

/// The decoders are C08/C09/C10; here only what is fetched.  An EEPROM of zero words keeps the
/// decoding itself concrete while the transfer log is checked.
#[inline(always)]
fn eeprom<T: FromI2C<H>>() {
    let mut b = Bus::any();
    let dev = any_u8("device");
    let mut h = H(&mut b);
    let _ = T::from_i2c(&mut h, dev);
    check(b.n == 1, "C06.eeprom.one_transfer");
    let o = b.log[0];
    check(!o.write && o.device == dev && o.reg == EEPROM && o.len == 1664 && !b.stray, "C06.eeprom.whole_eeprom");
}

crate::harnesses! {
    fn c06_640_chess_0() { frame::<Mlx90640, 24, 1536>(0, AccessPattern::Chess) }
    fn c06_640_chess_1() { frame::<Mlx90640, 24, 1536>(1, AccessPattern::Chess) }
    fn c06_640_interleave_0() { frame::<Mlx90640, 24, 1536>(0, AccessPattern::Interleave) }
    fn c06_640_interleave_1() { frame::<Mlx90640, 24, 1536>(1, AccessPattern::Interleave) }
    fn c06_641_interleave_0() { frame::<Mlx90641, 12, 384>(0, AccessPattern::Interleave) }
    fn c06_641_interleave_1() { frame::<Mlx90641, 12, 384>(1, AccessPattern::Interleave) }
    fn c06_641_chess_0() { frame::<Mlx90641, 12, 384>(0, AccessPattern::Chess) }
    fn c06_641_chess_1() { frame::<Mlx90641, 12, 384>(1, AccessPattern::Chess) }
    fn c06_aux_640() { auxdata::<Mlx90640>() }
    fn c06_aux_641() { auxdata::<Mlx90641>() }
    fn c06_eeprom_640() { eeprom::<Mlx90640Calibration>() }
    fn c06_eeprom_641() { eeprom::<Mlx90641Calibration>() }
}
