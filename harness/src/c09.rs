//! C09: decoding of the MLX90641 EEPROM, against the datasheet's formulas (section 11.1/11.2).
//! Every word carries a Hamming code; what a word decodes to is C01, and `validate_checksum` is used
//! here through that contract: `data(k)` is the value the code word at 0x2400 + k stands for.
use crate::vf::*;
use mlx9064x::common::{CalibrationData, FlaggedPixels};
use mlx9064x::mlx90641::hamming::validate_checksum;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::register::*;
use mlx9064x::LibraryError;

/// The contract of `validate_checksum` the obligations below are generated with, in place of its body:
/// the result is a function of the word alone, a value is eleven bits, an error names the word.
/// `c09_contract` holds the real body to it.
#[no_mangle]
#[inline(never)]
pub fn contract_validate_checksum(word: u16) -> Result<u16, LibraryError> {
    if function(word, "hamming.correctable") & 1 == 1 {
        Ok(function(word, "hamming.data") & 0x7FF)
    } else {
        Err(LibraryError::Checksum(word))
    }
}

pub const WORDS: usize = 832;
const PIXELS: usize = 192;
const OFFSETS: [usize; 2] = [0x40, 0x280];
const SENSITIVITIES: usize = 0x100;
const CONSTANTS: usize = 0x1C0;

pub struct Image641 {
    pub bytes: [u8; WORDS * 2],
}

impl Image641 {
    #[inline(always)]
    pub fn any() -> Self {
        Image641 { bytes: any_bytes("eeprom@hamming:18,37,41,48") }
    }
    #[inline(always)]
    fn e(&self, k: usize) -> u16 {
        u16::from_be_bytes([self.bytes[2 * k], self.bytes[2 * k + 1]])
    }
    #[inline(always)]
    pub fn correctable(&self, k: usize) -> bool {
        validate_checksum(self.e(k)).is_ok()
    }
    /// the eleven data bits of word `k`
    #[inline(always)]
    fn data(&self, k: usize) -> u32 {
        match validate_checksum(self.e(k)) {
            Ok(v) => v as u32,
            Err(_) => 0,
        }
    }
    #[inline(always)]
    fn i11(&self, k: usize) -> i32 {
        signed(self.data(k), 11)
    }
    #[inline(always)]
    fn hi6(&self, k: usize) -> u32 {
        self.data(k) >> 5
    }
    #[inline(always)]
    fn lo5(&self, k: usize) -> u32 {
        self.data(k) & 31
    }
    /// a 16 bit value kept in two words: eleven bits, then five
    #[inline(always)]
    fn pair(&self, k: usize) -> u16 {
        (self.data(k) as u16) << 5 | self.data(k + 1) as u16
    }
    /// the second word of such a pair holds five bits
    #[inline(always)]
    fn assume_pair(&self, k: usize) {
        assume(self.data(k + 1) < 32)
    }

    /// Every word the decoder reads can be corrected (C10 covers the images it refuses).
    #[inline(always)]
    pub fn assume_correctable(&self) {
        let mut k = 0x10;
        while k < OFFSETS[1] + PIXELS {
            if k != 0x13 && k != 0x14 {
                assume(self.correctable(k));
            }
            k += 1;
        }
    }

    /// all of a pixel's calibration words are zero
    #[inline(always)]
    pub fn failed(&self, i: usize) -> bool {
        self.data(OFFSETS[0] + i) == 0 && self.data(OFFSETS[1] + i) == 0 && self.data(SENSITIVITIES + i) == 0 && self.data(CONSTANTS + i) == 0
    }
    /// exact value of a pixel's reference offset (scales of 32 and more only leave zero in range)
    #[inline(always)]
    pub fn offset(&self, s: usize, i: usize) -> i64 {
        let scale = self.hi6(0x10);
        let scale = if scale < 31 { scale } else { 31 };
        self.pair(0x11) as i16 as i64 + ((self.i11(OFFSETS[s] + i) as i64) << scale)
    }
    #[inline(always)]
    fn alpha(&self, i: usize) -> f32 {
        let row = i / 32;
        let scales = 0x19 + row / 2;
        let scale = if row % 2 == 0 { self.hi6(scales) } else { self.lo5(scales) };
        let max = self.data(0x1C + row) as f32 / pow2(scale + 20);
        self.data(SENSITIVITIES + i) as f32 / 2047.0 * max
    }
    #[inline(always)]
    fn k_ta(&self, i: usize) -> f32 {
        (signed(self.hi6(CONSTANTS + i), 6) as f32 * pow2(self.lo5(0x16)) + self.i11(0x15) as f32) / pow2(self.hi6(0x16))
    }
    #[inline(always)]
    fn k_v(&self, i: usize) -> f32 {
        (signed(self.lo5(CONSTANTS + i), 5) as f32 * pow2(self.lo5(0x18)) + self.i11(0x17) as f32) / pow2(self.hi6(0x18))
    }
    /// K_V and K_Ta of the compensation pixel: five bits of scale, six of value
    #[inline(always)]
    fn cp(&self, k: usize) -> f32 {
        signed(self.data(k) & 63, 6) as f32 / pow2(self.data(k) >> 6)
    }
}

#[inline(always)]
fn globals(m: &Image641, c: &Mlx90641Calibration) {
    feq(c.k_s_ta(), m.i11(0x22) as f32 / 32768.0, "C09.k_s_ta");
    match c.emissivity() {
        Some(e) => feq(e, m.i11(0x23) as f32 / 512.0, "C09.emissivity"),
        None => check(false, "C09.emissivity.present"),
    }
    feq(c.gain(), m.pair(0x24) as f32, "C09.gain");
    check(c.v_dd_25() as i32 == m.i11(0x26) * 32, "C09.v_dd_25");
    check(c.k_v_dd() as i32 == m.i11(0x27) * 32, "C09.k_v_dd");
    feq(c.v_dd_0(), 3.3, "C09.v_dd_0");
    feq(c.v_ptat_25(), m.pair(0x28) as f32, "C09.v_ptat_25");
    feq(c.k_t_ptat(), m.i11(0x2A) as f32 / 8.0, "C09.k_t_ptat");
    feq(c.k_v_ptat(), m.i11(0x2B) as f32 / 4096.0, "C09.k_v_ptat");
    feq(c.alpha_ptat(), m.data(0x2C) as f32 / 128.0, "C09.alpha_ptat");
    let bits = m.data(0x33) >> 9;
    let want = if bits == 0 {
        Resolution::Sixteen
    } else if bits == 1 {
        Resolution::Seventeen
    } else if bits == 2 {
        Resolution::Eighteen
    } else {
        Resolution::Nineteen
    };
    check(c.resolution() == want, "C09.resolution");
    match c.temperature_gradient_coefficient() {
        Some(t) => feq(t, signed(m.data(0x33) & 0x1FF, 9) as f32 / 64.0, "C09.gradient"),
        None => check(false, "C09.gradient.present"),
    }
    let mut s = 0;
    while s < 2 {
        feq(c.alpha_cp(SUBPAGES[s]), m.data(0x2D) as f32 / pow2(m.data(0x2E)), "C09.alpha_cp");
        check(c.offset_reference_cp(SUBPAGES[s]) == m.pair(0x2F) as i16, "C09.offset_cp");
        feq(c.k_ta_cp(SUBPAGES[s]), m.cp(0x31), "C09.k_ta_cp");
        feq(c.k_v_cp(SUBPAGES[s]), m.cp(0x32), "C09.k_v_cp");
        let mut p = 0;
        while p < 2 {
            check(c.access_pattern_compensation_cp(SUBPAGES[s], PATTERNS[p]).is_none(), "C09.no_interleave_correction_cp");
            p += 1;
        }
        s += 1;
    }
}

#[inline(always)]
fn ranges(m: &Image641, c: &Mlx90641Calibration) {
    let scale = pow2(m.data(0x34));
    let ct = [-40, -20, 0, 80, 120, m.data(0x3A) as i32, m.data(0x3C) as i32, m.data(0x3E) as i32];
    let at = [0x35, 0x36, 0x37, 0x38, 0x39, 0x3B, 0x3D, 0x3F];
    let mut ks = [0f32; 8];
    let mut n = 0;
    while n < 8 {
        ks[n] = m.i11(at[n]) as f32 / scale;
        n += 1;
    }
    let corners = c.corner_temperatures();
    let slopes = c.k_s_to();
    let corr = c.alpha_correction();
    check(corners.len() == 8 && slopes.len() == 8 && corr.len() == 8, "C09.ranges.number");
    let mut n = 0;
    while n < 8 {
        check(corners[n] as i32 == ct[n], "C09.corner_temperature");
        feq(slopes[n], ks[n], "C09.k_s_to");
        n += 1;
    }
    // sensitivity correction: 1 in the basic range (0..80 °C), products of the slopes beyond
    let below = 1.0 / (1.0 + ks[1] * 20.0);
    feq(corr[0], 1.0 / (1.0 + ks[0] * 20.0) * below, "C09.alpha_correction.far_below");
    feq(corr[1], below, "C09.alpha_correction.below");
    feq(corr[2], 1.0, "C09.alpha_correction.basic");
    let mut acc = 1.0;
    let mut n = 3;
    while n < 8 {
        acc = (1.0 + ks[n - 1] * (ct[n] - ct[n - 1]) as f32) * acc;
        feq(corr[n], acc, "C09.alpha_correction.above");
        n += 1;
    }
}

/// Decodes an arbitrary image; `f` states what must hold of the calibration.
#[inline(always)]
fn decoded(f: impl FnOnce(&Image641, &Mlx90641Calibration)) {
    let m = Image641::any();
    m.assume_correctable();
    m.assume_pair(0x11);
    m.assume_pair(0x24);
    m.assume_pair(0x28);
    m.assume_pair(0x2F);
    match Mlx90641Calibration::from_data(&m.bytes) {
        Ok(c) => {
            cover(true, "decodes");
            f(&m, &c)
        }
        Err(_) => cover(true, "refused"),
    }
}

macro_rules! per_pixel {
    ($m:ident, $it:expr, $i:ident, $v:ident, $covers:literal, $body:expr) => {{
        let mut it = $it;
        let mut $i = 0;
        while $i < PIXELS {
            match it.next() {
                Some($v) => {
                    if !$m.failed($i) {
                        $body
                    }
                }
                None => check(false, $covers),
            }
            $i += 1;
        }
        check(it.next().is_none(), $covers);
    }};
}

crate::harnesses! {
    fn c09_contract() {
        let w = any_u16("word");
        let other = any_u16("other");
        let r = validate_checksum(w);
        match &r {
            Ok(v) => {
                cover(true, "correctable");
                check(*v < 0x800, "C09.contract.eleven_bits")
            }
            Err(e) => {
                cover(true, "uncorrectable");
                check(*e == LibraryError::Checksum(w), "C09.contract.error_names_the_word")
            }
        }
        let _ = validate_checksum(other);
        check(validate_checksum(w) == r, "C09.contract.function_of_the_word");
        // keeps the contract in the compiled crate
        if w != w {
            let _ = contract_validate_checksum(w);
        }
    }
    fn c09_globals() { decoded(globals) }
    fn c09_ranges() { decoded(ranges) }
    fn c09_offset() {
        decoded(|m, c| {
            per_pixel!(m, c.offset_reference_pixels(Subpage::Zero), i, v, "C09.offset.covers_the_pixels", check(*v as i64 == m.offset(0, i), "C09.pixel.offset.subpage_0"));
            per_pixel!(m, c.offset_reference_pixels(Subpage::One), i, v, "C09.offset.covers_the_pixels", check(*v as i64 == m.offset(1, i), "C09.pixel.offset.subpage_1"));
        })
    }
    fn c09_alpha() {
        decoded(|m, c| {
            per_pixel!(m, c.alpha_pixels(Subpage::Zero), i, v, "C09.alpha.covers_the_pixels", feq(*v, m.alpha(i), "C09.pixel.alpha.subpage_0"));
            per_pixel!(m, c.alpha_pixels(Subpage::One), i, v, "C09.alpha.covers_the_pixels", feq(*v, m.alpha(i), "C09.pixel.alpha.subpage_1"));
        })
    }
    fn c09_k_ta() {
        decoded(|m, c| {
            per_pixel!(m, c.k_ta_pixels(Subpage::Zero), i, v, "C09.k_ta.covers_the_pixels", feq(*v, m.k_ta(i), "C09.pixel.k_ta.subpage_0"));
            per_pixel!(m, c.k_ta_pixels(Subpage::One), i, v, "C09.k_ta.covers_the_pixels", feq(*v, m.k_ta(i), "C09.pixel.k_ta.subpage_1"));
        })
    }
    fn c09_k_v() {
        decoded(|m, c| {
            per_pixel!(m, c.k_v_pixels(Subpage::Zero), i, v, "C09.k_v.covers_the_pixels", feq(*v, m.k_v(i), "C09.pixel.k_v.subpage_0"));
            per_pixel!(m, c.k_v_pixels(Subpage::One), i, v, "C09.k_v.covers_the_pixels", feq(*v, m.k_v(i), "C09.pixel.k_v.subpage_1"));
        })
    }
    fn c09_flags() {
        decoded(|m, c| {
            let (failed, outlier) = (c.failed_pixels(), c.outlier_pixels());
            check(failed.len() == PIXELS && outlier.len() == PIXELS, "C09.flags.number");
            let mut some = false;
            let mut i = 0;
            while i < PIXELS {
                check(failed[i] == m.failed(i), "C09.pixel.failed");
                check(outlier[i] == m.failed(i), "C09.pixel.outlier");
                some |= m.failed(i);
                i += 1;
            }
            check(FlaggedPixels::any(&failed) == some, "C09.flags.any_failed");
            check(FlaggedPixels::any(&outlier) == some, "C09.flags.any_outlier");
            let mut p = 0;
            while p < 2 {
                let mut it = c.access_pattern_compensation_pixels(PATTERNS[p]);
                let mut i = 0;
                while i < PIXELS {
                    match it.next() {
                        Some(v) => check(v.is_none(), "C09.pixel.no_interleave_correction"),
                        None => check(false, "C09.interleave.covers_the_pixels"),
                    }
                    i += 1;
                }
                check(it.next().is_none(), "C09.interleave.covers_the_pixels");
                p += 1;
            }
        })
    }
    /// an image is refused only because a word cannot be corrected or an offset does not fit
    fn c09_refused() {
        let m = Image641::any();
        m.assume_correctable();
        m.assume_pair(0x11);
        let r = Mlx90641Calibration::from_data(&m.bytes);
        let mut misfit = false;
        let mut i = 0;
        while i < PIXELS {
            let (a, b) = (i16::try_from(m.offset(0, i)).is_err(), i16::try_from(m.offset(1, i)).is_err());
            misfit |= !m.failed(i) && (a || b);
            i += 1;
        }
        match r {
            Ok(_) => check(!misfit, "C09.refused.when_an_offset_overflows"),
            Err(LibraryError::InvalidData(_)) => check(misfit, "C09.refused.only_when_an_offset_overflows"),
            Err(_) => {}
        }
    }
}
