//! C01: Hamming checksum of the MLX90641 EEPROM words.
use crate::vf::*;
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::LibraryError;

/// The code of the MLX90641 datasheet (section 11.1.1), written bit by bit: D0..D10 are the data
/// bits, P0..P3 Hamming parity bits over groups of data bits, P4 the parity of everything else.
fn enc(d: u16) -> u16 {
    let b = |i: u16| (d >> i) & 1;
    let p0 = b(0) ^ b(1) ^ b(3) ^ b(4) ^ b(6) ^ b(8) ^ b(10);
    let p1 = b(0) ^ b(2) ^ b(3) ^ b(5) ^ b(6) ^ b(9) ^ b(10);
    let p2 = b(1) ^ b(2) ^ b(3) ^ b(7) ^ b(8) ^ b(9) ^ b(10);
    let p3 = b(4) ^ b(5) ^ b(6) ^ b(7) ^ b(8) ^ b(9) ^ b(10);
    let mut p4 = p0 ^ p1 ^ p2 ^ p3;
    for i in 0..11 {
        p4 ^= b(i);
    }
    (d & 0x7ff) | p0 << 11 | p1 << 12 | p2 << 13 | p3 << 14 | p4 << 15
}

crate::harnesses! {
    /// requires: nothing.  ensures: exactly the 11-bit values are encoded, to the datasheet's code word.
    fn c01_add_checksum() {
        let w = any_u16("word");
        cover(w > 0x7ff, "more than 11 bits");
        cover(w <= 0x7ff, "at most 11 bits");
        match add_checksum(w) {
            Ok(c) => {
                check(w <= 0x7ff, "C01.add.accepts_only_11_bits");
                check(c & 0x7ff == w, "C01.add.systematic");
                check(c == enc(w), "C01.add.is_datasheet_code");
            }
            Err(_) => check(w > 0x7ff, "C01.add.rejects_only_more_than_11_bits"),
        }
    }
    /// round trip: a stored word decodes to the value that was stored.
    fn c01_intact() {
        let d = any_u16("data") & 0x7ff;
        let r = add_checksum(d).and_then(validate_checksum);
        check(r == Ok(d), "C01.validate.intact_word_returns_data");
    }
    /// every single bit flip, anywhere in the word, is corrected.
    fn c01_single() {
        let d = any_u16("data") & 0x7ff;
        let i = (any_u8("bit") & 15) as u32;
        match add_checksum(d) {
            Ok(w) => check(validate_checksum(w ^ (1u16 << i)) == Ok(d), "C01.validate.single_error_corrected"),
            Err(_) => check(false, "C01.add.encodes_all_11_bit_values"),
        }
    }
    /// every double bit flip is reported, with the damaged word.
    fn c01_double() {
        let d = any_u16("data") & 0x7ff;
        let i = (any_u8("bit1") & 15) as u32;
        let j = (any_u8("bit2") & 15) as u32;
        if i == j {
            return;
        }
        match add_checksum(d) {
            Ok(w) => {
                let bad = w ^ (1u16 << i) ^ (1u16 << j);
                cover(true, "two different bits");
                check(validate_checksum(bad) == Err(LibraryError::Checksum(bad)), "C01.validate.double_error_reported");
            }
            Err(_) => check(false, "C01.add.encodes_all_11_bit_values"),
        }
    }
    /// any word at all: a value is returned only if the word is within one bit of that value's code word.
    fn c01_any_word() {
        let w = any_u16("word");
        match validate_checksum(w) {
            Ok(d) => {
                check(d <= 0x7ff, "C01.validate.returns_11_bits");
                check((enc(d) ^ w).count_ones() <= 1, "C01.validate.never_corrects_more_than_one_bit");
                cover(d != w & 0x7ff, "data bit corrected");
            }
            Err(e) => {
                check(e == LibraryError::Checksum(w), "C01.validate.error_carries_word");
                cover(true, "uncorrectable");
            }
        }
    }
}
