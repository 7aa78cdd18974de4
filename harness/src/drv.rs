//! The driver over the modelled camera, and every setting it offers with the documented bits.
use crate::bus::*;
use crate::clb::*;
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::register::*;
use mlx9064x::{CameraDriver, Error};

pub type D<Cam, const N: usize, const H_: usize, const B: usize> = CameraDriver<Clb<Cam, N>, H, H_, B>;

/// a driver as construction leaves it (the bus log is cleared)
#[inline(always)]
pub fn driver<Cam: MelexisCamera + 'static, const N: usize, const HH: usize, const B: usize>(b: &mut Bus, dev: u8, c: Clb<Cam, N>) -> D<Cam, N, HH, B> {
    let h = H(b);
    match CameraDriver::new_with_calibration(h, dev, c) {
        Ok(d) => {
            b.reset();
            d
        }
        Err(_) => {
            check(false, "driver construction succeeds on a working bus");
            loop {}
        }
    }
}

pub fn is_ok<T>(r: &Result<T, Error<H>>) -> bool {
    r.is_ok()
}
/// the error of the failed transfer `i` of the matching kind
pub fn is_bus_error<T>(r: &Result<T, Error<H>>, write: bool, i: usize) -> bool {
    match r {
        Err(Error::I2cWriteReadError(e)) => !write && e.0 as usize == i,
        Err(Error::I2cWriteError(e)) => write && e.0 as usize == i,
        _ => false,
    }
}
pub fn code(r: Resolution) -> u32 {
    match r {
        Resolution::Sixteen => 0,
        Resolution::Seventeen => 1,
        Resolution::Eighteen => 2,
        Resolution::Nineteen => 3,
    }
}
/// resolution correction: two to the power of calibrated minus current resolution
pub fn correction(calibrated: Resolution, control: u16) -> f32 {
    f32::from_bits((127 + code(calibrated) - (control >> 10 & 3) as u32) << 23)
}
pub fn flag(b: bool, bit: u16) -> u16 {
    if b {
        bit
    } else {
        0
    }
}

pub fn frame_words(b: &Bus, w: usize, s: usize) -> Frame {
    let (v_be, ptat, vdd, gain, cp) = if w == 32 { (0x0700, 0x0720, 0x072A, 0x070A, 0x0708) } else { (0x0580, 0x05A0, 0x05AA, 0x058A, 0x0588) };
    Frame { v_be: b.word(v_be), ptat: b.word(ptat), vdd: b.word(vdd), gain: b.word(gain), cp: b.word(cp + 0x20 * s) }
}
/// address of the RAM word of pixel `i` in subpage `s`
pub fn pixel_addr(w: usize, i: usize, s: usize) -> usize {
    if w == 32 {
        RAM + i
    } else {
        RAM + i / 32 * 64 + s * 32 + i % 32
    }
}

/// For every setter and value: `$go!(register, mask, bits, |driver| call)`.
#[macro_export]
macro_rules! every_setting {
    ($go:ident) => {{
        let mut i = 0;
        while i < 2 {
            $go!(STATUS, 0x10, flag(i == 1, 0x10), |d| d.set_overwrite_enabled(i == 1));
            $go!(CONTROL, 0x1, flag(i == 1, 0x1), |d| d.set_use_subpages(i == 1));
            $go!(CONTROL, 0x4, flag(i == 1, 0x4), |d| d.set_data_hold(i == 1));
            $go!(CONTROL, 0x8, flag(i == 1, 0x8), |d| d.set_subpage_repeat(i == 1));
            $go!(CONTROL, 0x10, flag(i == 1, 0x10), |d| d.set_subpage(SUBPAGES[i]));
            $go!(CONTROL, 0x1000, flag(i == 0, 0x1000), |d| d.set_access_pattern(PATTERNS[i]));
            i += 1;
        }
        let mut i = 0;
        while i < 4 {
            $go!(CONTROL, 0xC00, (i as u16) << 10, |d| d.set_resolution(RESOLUTIONS[i]));
            i += 1;
        }
        let mut i = 0;
        while i < 8 {
            $go!(CONTROL, 0x380, (i as u16) << 7, |d| d.set_frame_rate(RATES[i]));
            i += 1;
        }
    }};
}
/// Every getter, with the meaning of the register word it returns.
#[macro_export]
macro_rules! every_getter {
    ($go:ident) => {{
        $go!(STATUS, |d, w| d.overwrite_enabled().map(|v| v == (w & 0x10 != 0)));
        $go!(STATUS, |d, w| d.last_measured_subpage().map(|v| v as u16 == w & 1));
        $go!(STATUS, |d, w| d.data_available().map(|v| match v {
            Some(s) => w & 8 != 0 && s as u16 == w & 1,
            None => w & 8 == 0,
        }));
        $go!(CONTROL, |d, w| d.subpages_enabled().map(|v| v == (w & 1 != 0)));
        $go!(CONTROL, |d, w| d.data_hold_enabled().map(|v| v == (w & 4 != 0)));
        $go!(CONTROL, |d, w| d.subpage_repeat().map(|v| v == (w & 8 != 0)));
        $go!(CONTROL, |d, w| d.selected_subpage().map(|v| v as u16 == w >> 4 & 1));
        $go!(CONTROL, |d, w| d.frame_rate().map(|v| v == RATES[(w >> 7 & 7) as usize]));
        $go!(CONTROL, |d, w| d.resolution().map(|v| v == RESOLUTIONS[(w >> 10 & 3) as usize]));
        $go!(CONTROL, |d, w| d.access_pattern().map(|v| (v == AccessPattern::Chess) == (w & 0x1000 != 0)));
    }};
}
