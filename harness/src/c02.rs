//! C02: register field layout, isolation and byte round trips.
use crate::vf::*;
use mlx9064x::register::*;

fn st(w: u16) -> StatusRegister {
    StatusRegister::from(&w.to_be_bytes()[..])
}
fn ct(w: u16) -> ControlRegister {
    ControlRegister::from(&w.to_be_bytes()[..])
}
fn sw(r: StatusRegister) -> u16 {
    u16::from_be_bytes(r.into())
}
fn cw(r: ControlRegister) -> u16 {
    u16::from_be_bytes(r.into())
}
/// the datasheet's documented bits
const STATUS_BITS: u16 = 0x0039;
const CONTROL_BITS: u16 = 0x1f9f;

/// `$set` changes exactly the bits of `$mask` to `$bits` and the getter then reads `$v`.
macro_rules! field {
    ($reg:ident, $wd:ident, $w:expr, $get:ident, $set:ident, $v:expr, $mask:expr, $bits:expr, $name:literal) => {{
        let mut r = $reg($w);
        r.$set($v);
        check($wd(r) == ($w & !$mask) | $bits, concat!("C02.", $name, ".set_changes_only_its_bits"));
        check(r.$get() == $v, concat!("C02.", $name, ".reads_back"));
    }};
}

crate::harnesses! {
    /// getters read the documented bits; ensures hold for every register word.
    fn c02_status() {
        let w = any_u16("word");
        let b = any_bool("flag");
        let r = st(w);
        check(sw(r) == w, "C02.status.bytes_round_trip");
        check(r.last_updated_subpage() as usize == (w & 1) as usize, "C02.status.subpage_bits");
        check(r.new_data() == (w & 8 != 0), "C02.status.new_data_bit");
        check(r.overwrite_enabled() == (w & 16 != 0), "C02.status.overwrite_bit");
        check(r.start_measurement() == (w & 32 != 0), "C02.status.start_bit");
        field!(st, sw, w, overwrite_enabled, set_overwrite_enabled, b, 16u16, if b { 16u16 } else { 0 }, "status.overwrite");
        let mut r = st(w);
        r.reset_new_data();
        check(sw(r) == w & !8, "C02.status.reset_new_data_clears_only_its_bit");
        let mut r = st(w);
        r.set_start_measurement();
        check(sw(r) == w | 32, "C02.status.start_sets_only_its_bit");
    }
    fn c02_control_get() {
        let w = any_u16("word");
        let r = ct(w);
        check(cw(r) == w, "C02.control.bytes_round_trip");
        check(r.use_subpages() == (w & 1 != 0), "C02.control.use_subpages_bit");
        check(r.step_mode() == (w & 2 != 0), "C02.control.step_mode_bit");
        check(r.data_hold() == (w & 4 != 0), "C02.control.data_hold_bit");
        check(r.subpage_repeat() == (w & 8 != 0), "C02.control.subpage_repeat_bit");
        check(r.subpage() as usize == (w >> 4 & 1) as usize, "C02.control.subpage_bits");
        check(r.frame_rate() == RATES[(w >> 7 & 7) as usize], "C02.control.frame_rate_bits");
        check(r.resolution() == RESOLUTIONS[(w >> 10 & 3) as usize], "C02.control.resolution_bits");
        // bit set: chess pattern; bit clear: interleaved
        check((r.access_pattern() == AccessPattern::Chess) == (w & 0x1000 != 0), "C02.control.access_pattern_bit");
    }
    fn c02_control_set() {
        let w = any_u16("word");
        let b = any_bool("flag");
        let bit = |m: u16| if b { m } else { 0 };
        field!(ct, cw, w, use_subpages, set_use_subpages, b, 1u16, bit(1), "control.use_subpages");
        field!(ct, cw, w, step_mode, set_step_mode, b, 2u16, bit(2), "control.step_mode");
        field!(ct, cw, w, data_hold, set_data_hold, b, 4u16, bit(4), "control.data_hold");
        field!(ct, cw, w, subpage_repeat, set_subpage_repeat, b, 8u16, bit(8), "control.subpage_repeat");
        let s = if b { Subpage::One } else { Subpage::Zero };
        field!(ct, cw, w, subpage, set_subpage, s, 16u16, bit(16), "control.subpage");
        let p = if b { AccessPattern::Chess } else { AccessPattern::Interleave };
        field!(ct, cw, w, access_pattern, set_access_pattern, p, 0x1000u16, bit(0x1000), "control.access_pattern");
        let mut i = 0;
        while i < 8 {
            field!(ct, cw, w, frame_rate, set_frame_rate, RATES[i], 0x380u16, (i as u16) << 7, "control.frame_rate");
            i += 1;
        }
        let mut i = 0;
        while i < 4 {
            field!(ct, cw, w, resolution, set_resolution, RESOLUTIONS[i], 0xc00u16, (i as u16) << 10, "control.resolution");
            i += 1;
        }
    }
    fn c02_equality() {
        let a = any_u16("a");
        let b = any_u16("b");
        check((st(a) == st(b)) == ((a ^ b) & STATUS_BITS == 0), "C02.status.equality_is_documented_bits");
        check((ct(a) == ct(b)) == ((a ^ b) & CONTROL_BITS == 0), "C02.control.equality_is_documented_bits");
        cover(st(a) == st(b) && a != b, "equal up to reserved bits");
        check(cw(ControlRegister::default_mlx90640()) == 0x1901, "C02.control.default_mlx90640");
        check(cw(ControlRegister::default_mlx90641()) == 0x0901, "C02.control.default_mlx90641");
    }
    fn c02_i2c() {
        let w = any_u16("word");
        let b = any_bool("flag");
        let r = I2cRegister::from(&w.to_be_bytes()[..]);
        check(r.fast_mode_plus() == (w & 1 == 0), "C02.i2c.fast_mode_bit_is_inverted");
        check(r.i2c_threshold_halved() == (w & 2 != 0), "C02.i2c.threshold_bit");
        check(r.sda_current_limiter() == (w & 4 == 0), "C02.i2c.current_limiter_bit_is_inverted");
        let iw = |r: I2cRegister| u16::from_be_bytes(r.into()) & 7;
        check(iw(r) == w & 7, "C02.i2c.bytes_round_trip");
        let mut x = r;
        x.set_fast_mode_plus(b);
        check(x.fast_mode_plus() == b && iw(x) == w & 6 | !b as u16, "C02.i2c.set_fast_mode_changes_only_its_bit");
        let mut x = r;
        x.set_i2c_threshold_halved(b);
        check(x.i2c_threshold_halved() == b && iw(x) == w & 5 | (b as u16) << 1, "C02.i2c.set_threshold_changes_only_its_bit");
        let mut x = r;
        x.set_sda_current_limiter(b);
        check(x.sda_current_limiter() == b && iw(x) == w & 3 | (!b as u16) << 2, "C02.i2c.set_limiter_changes_only_its_bit");
        let v = any_u16("other");
        let q = I2cRegister::from(&v.to_be_bytes()[..]);
        check((q == r) == ((v ^ w) & 7 == 0), "C02.i2c.equality_is_documented_bits");
        check(iw(I2cRegister::default()) == 0, "C02.i2c.default");
    }
}
