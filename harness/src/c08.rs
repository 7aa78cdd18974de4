//! C08: decoding of the MLX90640 EEPROM, against the datasheet's formulas (section 11.1/11.2).
use crate::vf::*;
use mlx9064x::common::{CalibrationData, FlaggedPixels};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::register::*;
use mlx9064x::LibraryError;

pub const WORDS: usize = 832;

/// An EEPROM image: word `k` is the one at address 0x2400 + k.
pub struct Image {
    bytes: [u8; WORDS * 2],
}

impl Image {
    #[inline(always)]
    fn any() -> Self {
        Image { bytes: any_bytes("eeprom") }
    }
    #[inline(always)]
    fn e(&self, k: usize) -> u16 {
        u16::from_be_bytes([self.bytes[2 * k], self.bytes[2 * k + 1]])
    }
    /// nibble `n` (0 = least significant) of word `k`
    #[inline(always)]
    fn u4(&self, k: usize, n: u32) -> u32 {
        (self.e(k) >> (4 * n)) as u32 & 15
    }
    #[inline(always)]
    fn i4(&self, k: usize, n: u32) -> i32 {
        signed(self.u4(k, n), 4)
    }
    #[inline(always)]
    fn hi(&self, k: usize) -> i32 {
        signed(self.e(k) as u32 >> 8, 8)
    }
    #[inline(always)]
    fn lo(&self, k: usize) -> i32 {
        signed(self.e(k) as u32 & 255, 8)
    }

    /// average, row and column parts of the pixel at (row, column); `at` is the scale word
    #[inline(always)]
    fn bulk(&self, at: usize, average: i32, row: usize, column: usize) -> i32 {
        let r = self.i4(at + 2 + row / 4, (row % 4) as u32) << self.u4(at, 2);
        let c = self.i4(at + 8 + column / 4, (column % 4) as u32) << self.u4(at, 1);
        average + r + c
    }
    #[inline(always)]
    fn failed(&self, i: usize) -> bool {
        self.e(64 + i) == 0
    }
    #[inline(always)]
    fn offset(&self, i: usize) -> i32 {
        let rem = signed(self.e(64 + i) as u32 >> 10, 6) << self.u4(16, 0);
        self.bulk(16, self.e(17) as i16 as i32, i / 32, i % 32) + rem
    }
    #[inline(always)]
    fn offset_if_failed(&self, i: usize) -> i32 {
        self.bulk(16, self.e(17) as i16 as i32, i / 32, i % 32)
    }
    #[inline(always)]
    fn alpha(&self, i: usize) -> f32 {
        let rem = signed(self.e(64 + i) as u32 >> 4 & 63, 6) << self.u4(32, 0);
        (self.bulk(32, self.e(33) as i32, i / 32, i % 32) as f32 + rem as f32) / pow2(self.u4(32, 3) + 30)
    }
    #[inline(always)]
    fn k_ta(&self, i: usize) -> f32 {
        let rc = match (i / 32 % 2, i % 2) {
            (0, 0) => self.hi(54),
            (1, 0) => self.lo(54),
            (0, _) => self.hi(55),
            (_, _) => self.lo(55),
        };
        let rem = signed(self.e(64 + i) as u32 >> 1 & 7, 3) << self.u4(56, 0);
        (rc + rem) as f32 / pow2(self.u4(56, 1) + 8)
    }
    #[inline(always)]
    fn k_v(&self, i: usize) -> f32 {
        let n = match (i / 32 % 2, i % 2) {
            (0, 0) => 3,
            (1, 0) => 2,
            (0, _) => 1,
            (_, _) => 0,
        };
        self.i4(52, n) as f32 / pow2(self.u4(56, 2))
    }
}

#[inline(always)]
fn opt_feq(a: Option<f32>, b: Option<f32>, name: &'static str) {
    match (a, b) {
        (Some(x), Some(y)) => feq(x, y, name),
        (None, None) => {}
        _ => check(false, name),
    }
}

#[inline(always)]
fn globals(m: &Image, c: &Mlx90640Calibration) {
    check(c.k_v_dd() as i32 == m.hi(51) * 32, "C08.k_v_dd");
    check(c.v_dd_25() as i32 == ((m.e(51) & 255) as i32 - 256) * 32 - 8192, "C08.v_dd_25");
    feq(c.v_dd_0(), 3.3, "C08.v_dd_0");
    let bits = (m.e(56) >> 12) & 3;
    let want = if bits == 0 {
        Resolution::Sixteen
    } else if bits == 1 {
        Resolution::Seventeen
    } else if bits == 2 {
        Resolution::Eighteen
    } else {
        Resolution::Nineteen
    };
    check(c.resolution() == want, "C08.resolution");
    feq(c.k_v_ptat(), signed(m.e(50) as u32 >> 10, 6) as f32 / 4096.0, "C08.k_v_ptat");
    feq(c.k_t_ptat(), signed(m.e(50) as u32 & 0x3FF, 10) as f32 / 8.0, "C08.k_t_ptat");
    feq(c.v_ptat_25(), m.e(49) as i16 as f32, "C08.v_ptat_25");
    feq(c.alpha_ptat(), m.u4(16, 3) as f32 / 4.0 + 8.0, "C08.alpha_ptat");
    feq(c.gain(), m.e(48) as i16 as f32, "C08.gain");
    feq(c.k_s_ta(), m.hi(60) as f32 / 8192.0, "C08.k_s_ta");
    let step = ((m.e(63) >> 12) & 3) as i32 * 10;
    let ct2 = m.u4(63, 1) as i32 * step;
    let ct3 = m.u4(63, 2) as i32 * step + ct2;
    let ct = [-40, 0, ct2, ct3];
    let scale = pow2(m.u4(63, 0) + 8);
    let ks = [m.lo(61) as f32 / scale, m.hi(61) as f32 / scale, m.lo(62) as f32 / scale, m.hi(62) as f32 / scale];
    let corners = c.corner_temperatures();
    let slopes = c.k_s_to();
    let corr = c.alpha_correction();
    check(corners.len() == 4 && slopes.len() == 4 && corr.len() == 4, "C08.ranges.number");
    let mut n = 0;
    while n < 4 {
        check(corners[n] as i32 == ct[n], "C08.corner_temperature");
        feq(slopes[n], ks[n], "C08.k_s_to");
        n += 1;
    }
    feq(corr[0], 1.0 / (1.0 + ks[0] * 40.0), "C08.alpha_correction.below");
    feq(corr[1], 1.0, "C08.alpha_correction.basic");
    let above = 1.0 + ks[1] * ct2 as f32;
    feq(corr[2], above, "C08.alpha_correction.above");
    feq(corr[3], (1.0 + ks[2] * (ct3 - ct2) as f32) * above, "C08.alpha_correction.far_above");
    check(c.emissivity().is_none(), "C08.no_emissivity");
    let base = signed(m.e(58) as u32 & 0x3FF, 10);
    let delta = signed(m.e(58) as u32 >> 10, 6);
    check(c.offset_reference_cp(Subpage::Zero) as i32 == base, "C08.offset_cp.zero");
    check(c.offset_reference_cp(Subpage::One) as i32 == base + delta, "C08.offset_cp.one");
    let a0 = (m.e(57) & 0x3FF) as f32 / pow2(m.u4(32, 3) + 27);
    let ratio = signed(m.e(57) as u32 >> 10, 6) as f32 / 128.0;
    feq(c.alpha_cp(Subpage::Zero), a0, "C08.alpha_cp.zero");
    feq(c.alpha_cp(Subpage::One), a0 * (1.0 + ratio), "C08.alpha_cp.one");
    let mut s = 0;
    while s < 2 {
        feq(c.k_v_cp(SUBPAGES[s]), m.hi(59) as f32 / pow2(m.u4(56, 2)), "C08.k_v_cp");
        feq(c.k_ta_cp(SUBPAGES[s]), m.lo(59) as f32 / pow2(m.u4(56, 1) + 8), "C08.k_ta_cp");
        s += 1;
    }
    match c.temperature_gradient_coefficient() {
        Some(t) => {
            check(m.lo(60) != 0, "C08.gradient.absent_when_zero");
            feq(t, m.lo(60) as f32 / 32.0, "C08.gradient");
        }
        None => check(m.lo(60) == 0, "C08.gradient.present"),
    }
    opt_feq(c.access_pattern_compensation_cp(Subpage::Zero, AccessPattern::Chess), None, "C08.interleave_cp.chess");
    opt_feq(c.access_pattern_compensation_cp(Subpage::One, AccessPattern::Chess), None, "C08.interleave_cp.chess");
    opt_feq(c.access_pattern_compensation_cp(Subpage::Zero, AccessPattern::Interleave), None, "C08.interleave_cp.zero");
    let c1 = signed(m.e(53) as u32 & 63, 6) as f32 / 16.0;
    opt_feq(c.access_pattern_compensation_cp(Subpage::One, AccessPattern::Interleave), Some(c1), "C08.interleave_cp.one");
}

/// the interleave correction of pixel `i`: the datasheet's IL_CHESS formula
#[inline(always)]
fn interleave(m: &Image, i: usize) -> f32 {
    let c2 = signed(m.e(53) as u32 >> 6 & 31, 5) as f32 / 2.0;
    let c3 = signed(m.e(53) as u32 >> 11, 5) as f32 / 8.0;
    match (i / 32 % 2, i % 4) {
        (0, 0) | (0, 2) => -c3,
        (0, 1) => c2 - c3,
        (0, _) => -(c2 + c3),
        (_, 0) | (_, 2) => c3,
        (_, 1) => -(c2 - c3),
        (_, _) => c2 + c3,
    }
}

/// Decodes an arbitrary image; `f` states what must hold of the calibration.
#[inline(always)]
fn decoded(f: impl FnOnce(&Image, &Mlx90640Calibration)) {
    let m = Image::any();
    match Mlx90640Calibration::from_data(&m.bytes) {
        Ok(c) => {
            cover(true, "decodes");
            f(&m, &c)
        }
        Err(_) => cover(true, "refused"),
    }
}

crate::harnesses! {
    fn c08_globals() { decoded(globals) }
    fn c08_offset() {
        decoded(|m, c| {
            let mut s = 0;
            while s < 2 {
                let mut it = c.offset_reference_pixels(SUBPAGES[s]);
                let mut i = 0;
                while i < 768 {
                    match it.next() {
                        Some(v) => check(m.failed(i) || *v as i32 == m.offset(i), "C08.pixel.offset"),
                        None => check(false, "C08.offset.covers_every_pixel"),
                    }
                    i += 1;
                }
                check(it.next().is_none(), "C08.offset.no_more_than_the_pixels");
                s += 1;
            }
        })
    }
    fn c08_alpha() {
        decoded(|m, c| {
            let mut s = 0;
            while s < 2 {
                let mut it = c.alpha_pixels(SUBPAGES[s]);
                let mut i = 0;
                while i < 768 {
                    match it.next() {
                        Some(v) => {
                            if !m.failed(i) {
                                feq(*v, m.alpha(i), "C08.pixel.alpha")
                            }
                        }
                        None => check(false, "C08.alpha.covers_every_pixel"),
                    }
                    i += 1;
                }
                check(it.next().is_none(), "C08.alpha.no_more_than_the_pixels");
                s += 1;
            }
        })
    }
    fn c08_k_ta() {
        decoded(|m, c| {
            let mut s = 0;
            while s < 2 {
                let mut it = c.k_ta_pixels(SUBPAGES[s]);
                let mut i = 0;
                while i < 768 {
                    match it.next() {
                        Some(v) => {
                            if !m.failed(i) {
                                feq(*v, m.k_ta(i), "C08.pixel.k_ta")
                            }
                        }
                        None => check(false, "C08.k_ta.covers_every_pixel"),
                    }
                    i += 1;
                }
                check(it.next().is_none(), "C08.k_ta.no_more_than_the_pixels");
                s += 1;
            }
        })
    }
    fn c08_k_v() {
        decoded(|m, c| {
            let mut s = 0;
            while s < 2 {
                let mut it = c.k_v_pixels(SUBPAGES[s]);
                let mut i = 0;
                while i < 768 {
                    match it.next() {
                        Some(v) => feq(*v, m.k_v(i), "C08.pixel.k_v"),
                        None => check(false, "C08.k_v.covers_every_pixel"),
                    }
                    i += 1;
                }
                check(it.next().is_none(), "C08.k_v.no_more_than_the_pixels");
                s += 1;
            }
        })
    }
    fn c08_interleave() {
        decoded(|m, c| {
            let mut it = c.access_pattern_compensation_pixels(AccessPattern::Interleave);
            let mut chess = c.access_pattern_compensation_pixels(AccessPattern::Chess);
            let mut i = 0;
            while i < 768 {
                match it.next() {
                    Some(Some(v)) => feq(*v, interleave(m, i), "C08.pixel.interleave_correction"),
                    _ => check(false, "C08.interleave.covers_every_pixel"),
                }
                match chess.next() {
                    Some(v) => check(v.is_none(), "C08.pixel.no_correction_in_chess"),
                    None => check(false, "C08.interleave.chess_covers_every_pixel"),
                }
                i += 1;
            }
            check(it.next().is_none() && chess.next().is_none(), "C08.interleave.no_more_than_the_pixels");
        })
    }
    fn c08_flags() {
        decoded(|m, c| {
            let (failed, outlier) = (c.failed_pixels(), c.outlier_pixels());
            check(failed.len() == 768 && outlier.len() == 768, "C08.flags.number");
            let (mut some_failed, mut some_outlier) = (false, false);
            let mut i = 0;
            while i < 768 {
                let out = m.e(64 + i) & 1 == 1;
                check(failed[i] == m.failed(i), "C08.pixel.failed");
                check(outlier[i] == out, "C08.pixel.outlier");
                some_failed |= m.failed(i);
                some_outlier |= out;
                i += 1;
            }
            check(FlaggedPixels::any(&failed) == some_failed, "C08.flags.any_failed");
            check(FlaggedPixels::any(&outlier) == some_outlier, "C08.flags.any_outlier");
        })
    }
    /// an image is refused only because a pixel offset does not fit
    fn c08_refused() {
        let m = Image::any();
        let r = Mlx90640Calibration::from_data(&m.bytes);
        let mut bad = false;
        let mut i = 0;
        while i < 768 {
            let v = if m.failed(i) { m.offset_if_failed(i) } else { m.offset(i) };
            bad |= i16::try_from(v).is_err();
            i += 1;
        }
        match r {
            Ok(_) => {}
            Err(LibraryError::InvalidData(_)) => check(bad, "C08.refused.only_when_an_offset_overflows"),
            Err(_) => check(false, "C08.refused.reason"),
        }
    }
    fn c08_camera() {
        const N: &str = "C08.camera.decoded_from_its_own_eeprom";
        crate::cam::read_from_camera(|d| Mlx90640Calibration::from_data(d), |a, b| crate::cam::everything(a, b, 4, 768, N), N)
    }
}
