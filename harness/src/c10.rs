//! C10: decoding calibration data is total.  Every overflow, slice bound, unwrap and shift in the
//! decoders is an obligation of its own; the checks below say when an image is refused.
use crate::vf::*;
use mlx9064x::common::CalibrationData;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::hamming::validate_checksum;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::LibraryError;

pub const BYTES: usize = 832 * 2;
/// full images followed by up to 2047 further bytes
const LONGEST: usize = BYTES + 0x7FF;

/// The contract of `validate_checksum` (see c09.rs); `c10_contract` holds the real body to it.
#[no_mangle]
#[inline(never)]
pub fn contract_validate_checksum(word: u16) -> Result<u16, LibraryError> {
    if function(word, "hamming.correctable") & 1 == 1 {
        Ok(function(word, "hamming.data") & 0x7FF)
    } else {
        Err(LibraryError::Checksum(word))
    }
}

#[inline(always)]
fn word(b: &[u8], k: usize) -> u16 {
    u16::from_be_bytes([b[2 * k], b[2 * k + 1]])
}
#[inline(always)]
fn correctable(b: &[u8], k: usize) -> bool {
    validate_checksum(word(b, k)).is_ok()
}
/// the words the MLX90641's decoding uses: everything but the identification words and two reserved ones
#[inline(always)]
fn used(k: usize) -> bool {
    k >= 0x10 && k != 0x13 && k != 0x14
}

#[inline(always)]
fn shorter(f: impl FnOnce(&[u8]) -> bool) {
    let b = any_bytes::<BYTES>("eeprom");
    let n = any_u16("length") as usize;
    assume(n < BYTES);
    check(!f(&b[..n]), "C10.short_image_is_refused");
}
#[inline(always)]
fn longer(f: impl FnOnce(&[u8])) {
    let b = any_bytes::<LONGEST>("eeprom");
    let n = BYTES + (any_u16("more") & 0x7FF) as usize;
    f(&b[..n]);
}

crate::harnesses! {
    fn c10_contract() {
        let w = any_u16("word");
        let other = any_u16("other");
        let r = validate_checksum(w);
        match &r {
            Ok(v) => check(*v < 0x800, "C10.contract.eleven_bits"),
            Err(e) => check(*e == LibraryError::Checksum(w), "C10.contract.error_names_the_word"),
        }
        let _ = validate_checksum(other);
        check(validate_checksum(w) == r, "C10.contract.function_of_the_word");
        if w != w {
            let _ = contract_validate_checksum(w);
        }
    }
    /// any full image of the MLX90640: decoded, or refused because a value does not fit
    fn c10_640_any() {
        let b = any_bytes::<BYTES>("eeprom");
        match Mlx90640Calibration::from_data(&b) {
            Ok(_) => cover(true, "decoded"),
            Err(e) => {
                cover(true, "refused");
                check(matches!(e, LibraryError::InvalidData(_)), "C10.640.full_image_refused_only_for_its_values");
            }
        }
    }
    fn c10_640_short() { shorter(|b| Mlx90640Calibration::from_data(b).is_ok()) }
    fn c10_640_long() { longer(|b| { let r = Mlx90640Calibration::from_data(b); check(!matches!(r, Err(LibraryError::Other(_))), "C10.640.long_image_is_read"); }) }
    /// any full image of the MLX90641
    fn c10_641_any() {
        let b = any_bytes::<BYTES>("eeprom@hamming:18,37,41,48");
        match Mlx90641Calibration::from_data(&b) {
            Ok(_) => {
                cover(true, "decoded");
                let mut all = true;
                let mut k = 0;
                while k < 832 {
                    if used(k) {
                        all = all & correctable(&b, k);
                    }
                    k += 1;
                }
                check(all, "C10.641.uncorrectable_word_is_refused");
            }
            Err(e) => {
                cover(true, "refused");
                check(matches!(e, LibraryError::InvalidData(_) | LibraryError::Checksum(_)), "C10.641.full_image_refused_only_for_its_values");
            }
        }
    }
    /// ... in which every used word is correctable: no checksum error
    fn c10_641_correctable() {
        let b = any_bytes::<BYTES>("eeprom@hamming:18,37,41,48");
        let mut k = 0;
        while k < 832 {
            if used(k) {
                assume(correctable(&b, k));
            }
            k += 1;
        }
        if let Err(e) = Mlx90641Calibration::from_data(&b) {
            check(matches!(e, LibraryError::InvalidData(_)), "C10.641.correctable_image_has_no_checksum_error");
        }
    }
    /// ... with an offset scale of zero nothing can overflow: an uncorrectable word gives a checksum error
    fn c10_641_uncorrectable() {
        let b = any_bytes::<BYTES>("eeprom@hamming:18,37,41,48");
        // offset average and scale that leave every offset within sixteen bits
        for k in [0x10, 0x11, 0x12] {
            assume(validate_checksum(word(&b, k)) == Ok(0));
        }
        match Mlx90641Calibration::from_data(&b) {
            Err(LibraryError::Checksum(_)) => cover(true, "checksum error"),
            Err(_) => check(false, "C10.641.uncorrectable_word_gives_a_checksum_error"),
            Ok(_) => {}
        }
    }
    fn c10_641_short() { shorter(|b| Mlx90641Calibration::from_data(b).is_ok()) }
    fn c10_641_long() { longer(|b| { let r = Mlx90641Calibration::from_data(b); check(!matches!(r, Err(LibraryError::Other(_))), "C10.641.long_image_is_read"); }) }
}
