//! Calibration read from a camera is the calibration of the image in the camera's EEPROM (C08, C09),
//! whatever that image is, or the refusal of that image.
use crate::bus::*;
use crate::vf::*;
use mlx9064x::common::{CalibrationData, FromI2C};
use mlx9064x::error::Error;
use mlx9064x::register::*;
use mlx9064x::LibraryError;

#[inline(always)]
fn same(a: f32, b: f32, name: &'static str) {
    check(a.to_bits() == b.to_bits(), name)
}
#[inline(always)]
fn same_option(a: Option<f32>, b: Option<f32>, name: &'static str) {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b, name),
        (None, None) => {}
        _ => check(false, name),
    }
}

#[inline(always)]
fn globals<'a, C: CalibrationData<'a>>(a: &C, b: &C, ranges: usize, name: &'static str) {
    check(a.k_v_dd() == b.k_v_dd() && a.v_dd_25() == b.v_dd_25() && a.resolution() == b.resolution(), name);
    same(a.v_dd_0(), b.v_dd_0(), name);
    same(a.k_v_ptat(), b.k_v_ptat(), name);
    same(a.k_t_ptat(), b.k_t_ptat(), name);
    same(a.v_ptat_25(), b.v_ptat_25(), name);
    same(a.alpha_ptat(), b.alpha_ptat(), name);
    same(a.gain(), b.gain(), name);
    same(a.k_s_ta(), b.k_s_ta(), name);
    same_option(a.emissivity(), b.emissivity(), name);
    same_option(a.temperature_gradient_coefficient(), b.temperature_gradient_coefficient(), name);
    let mut n = 0;
    while n < ranges {
        check(a.corner_temperatures()[n] == b.corner_temperatures()[n], name);
        same(a.k_s_to()[n], b.k_s_to()[n], name);
        same(a.alpha_correction()[n], b.alpha_correction()[n], name);
        n += 1;
    }
    let mut s = 0;
    while s < 2 {
        let p = SUBPAGES[s];
        check(a.offset_reference_cp(p) == b.offset_reference_cp(p), name);
        same(a.alpha_cp(p), b.alpha_cp(p), name);
        same(a.k_v_cp(p), b.k_v_cp(p), name);
        same(a.k_ta_cp(p), b.k_ta_cp(p), name);
        s += 1;
    }
}

/// `mine` is read from the camera, `want` decoded from the bytes of its EEPROM.
#[inline(always)]
pub fn read_from_camera<C: FromI2C<H, Ok = C, Error = Error<H>>>(
    decode: impl FnOnce(&[u8]) -> Result<C, LibraryError>,
    compare: impl FnOnce(&C, &C),
    name: &'static str,
) {
    let mut bus = Bus::regs(0, 0);
    bytes(&mut bus.eeprom, "eeprom");
    let image = bus.eeprom;
    let mine = C::from_i2c(&mut H(&mut bus), any_u8("device"));
    match (mine, decode(&image)) {
        (Ok(a), Ok(b)) => {
            cover(true, "decodes");
            compare(&a, &b)
        }
        (Err(Error::LibraryError(a)), Err(b)) => {
            cover(true, "refused");
            let kind = |e: &LibraryError| match e {
                LibraryError::InvalidData(_) => 0,
                LibraryError::Other(_) => 1,
                LibraryError::Checksum(_) => 2,
            };
            check(kind(&a) == kind(&b), name)
        }
        _ => check(false, name),
    }
}

#[inline(always)]
fn pixels<'a, C: CalibrationData<'a>>(a: &'a C, b: &'a C, n: usize, name: &'static str) {
    let mut s = 0;
    while s < 2 {
        let p = SUBPAGES[s];
        let mut x = (a.offset_reference_pixels(p), a.alpha_pixels(p), a.k_v_pixels(p), a.k_ta_pixels(p));
        let mut y = (b.offset_reference_pixels(p), b.alpha_pixels(p), b.k_v_pixels(p), b.k_ta_pixels(p));
        let mut i = 0;
        while i < n {
            match (x.0.next(), y.0.next()) {
                (Some(u), Some(v)) => check(*u == *v, name),
                _ => check(false, name),
            }
            match (x.1.next(), y.1.next()) {
                (Some(u), Some(v)) => same(*u, *v, name),
                _ => check(false, name),
            }
            match (x.2.next(), y.2.next()) {
                (Some(u), Some(v)) => same(*u, *v, name),
                _ => check(false, name),
            }
            match (x.3.next(), y.3.next()) {
                (Some(u), Some(v)) => same(*u, *v, name),
                _ => check(false, name),
            }
            i += 1;
        }
        s += 1;
    }
}

#[inline(always)]
pub fn everything<'a, C: CalibrationData<'a>>(a: &'a C, b: &'a C, ranges: usize, n: usize, name: &'static str) {
    globals(a, b, ranges, name);
    pixels(a, b, n, name);
}
