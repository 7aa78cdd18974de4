//! C03: frame rate, resolution, subpage, access pattern conversions; resolution correction.
use crate::vf::*;
use core::convert::TryFrom;
use core::time::Duration;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

const HZ: [f32; 8] = [0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];
const NANOS: [u64; 8] =
    [2_000_000_000, 1_000_000_000, 500_000_000, 250_000_000, 125_000_000, 62_500_000, 31_250_000, 15_625_000];

crate::harnesses! {
    /// for every f32 bit pattern: accepted exactly when it is a documented rate, and then inverted by From.
    fn c03_rate_f32() {
        let v = any_f32("hz");
        let mut want = 8;
        let mut i = 0;
        while i < 8 {
            if v.to_bits() == HZ[i].to_bits() {
                want = i;
            }
            i += 1;
        }
        cover(want < 8, "a documented rate");
        match FrameRate::try_from(v) {
            Ok(r) => {
                check(want < 8, "C03.rate.f32_accepts_only_documented_rates");
                let mut i = 0;
                while i < 8 {
                    if want == i {
                        check(r == RATES[i], "C03.rate.f32_maps_to_named_rate");
                    }
                    i += 1;
                }
            }
            Err(_) => check(want == 8, "C03.rate.f32_rejects_only_undocumented_rates"),
        }
    }
    fn c03_rate_u8() {
        let v = any_u8("hz");
        match FrameRate::try_from(v) {
            Ok(r) => {
                check(v.count_ones() == 1 && v <= 64, "C03.rate.u8_accepts_only_documented_rates");
                let mut i = 1;
                while i < 8 {
                    if r == RATES[i] {
                        check(v == 1 << (i - 1), "C03.rate.u8_maps_to_named_rate");
                    }
                    i += 1;
                }
                check(r != FrameRate::Half, "C03.rate.u8_maps_to_named_rate");
            }
            Err(_) => check(v.count_ones() != 1 || v > 64, "C03.rate.u8_rejects_only_undocumented_rates"),
        }
    }
    fn c03_rate_back() {
        let mut i = 0;
        while i < 8 {
            let r = RATES[i];
            let f: f32 = r.into();
            check(f.to_bits() == HZ[i].to_bits(), "C03.rate.to_f32");
            check(FrameRate::try_from(f) == Ok(r), "C03.rate.f32_round_trip");
            let d: Duration = r.into();
            check(d == Duration::from_nanos(NANOS[i]), "C03.rate.duration_is_reciprocal");
            // the code in the control register is the datasheet's
            let mut c = ControlRegister::from(&[0u8, 0][..]);
            c.set_frame_rate(r);
            let w = u16::from_be_bytes(c.into());
            check(w == (i as u16) << 7, "C03.rate.camera_code");
            check(c.frame_rate() == r, "C03.rate.camera_code_round_trip");
            i += 1;
        }
        check(FrameRate::default() == FrameRate::Two, "C03.rate.default");
        cover(true, "all rates");
    }
    fn c03_codes() {
        let w = any_u16("word");
        let r = ControlRegister::from(&w.to_be_bytes()[..]);
        check(r.resolution() == RESOLUTIONS[(w >> 10 & 3) as usize], "C03.resolution.camera_code");
        check(r.frame_rate() == RATES[(w >> 7 & 7) as usize], "C03.rate.from_camera_code");
        let n = any_bytes::<8>("n");
        let n = usize::from_le_bytes(n);
        match Subpage::try_from(n) {
            Ok(s) => check(n < 2 && s == SUBPAGES[n & 1] && usize::from(s) == n, "C03.subpage.number_round_trip"),
            Err(_) => check(n >= 2, "C03.subpage.rejects_only_invalid"),
        }
        let b = any_u8("b");
        match AccessPattern::try_from(b) {
            Ok(p) => check(b < 2 && u8::from(p) == b && (p == AccessPattern::Chess) == (b == 1), "C03.pattern.number_round_trip"),
            Err(_) => check(b >= 2, "C03.pattern.rejects_only_invalid"),
        }
    }
    fn c03_resolution_u8() {
        let b = any_u8("bits");
        match Resolution::try_from(b) {
            Ok(r) => check(b >= 16 && b <= 19 && r == RESOLUTIONS[(b & 3) as usize] && u8::from(r) == b, "C03.resolution.bits_round_trip"),
            Err(_) => check(b < 16 || b > 19, "C03.resolution.rejects_only_invalid"),
        }
        check(Resolution::default() == Resolution::Eighteen, "C03.resolution.default");
    }
    fn c03_resolution_correction() {
        let mut i = 0;
        while i < 4 {
            let mut j = 0;
            while j < 4 {
                let want = (1u32 << i) as f32 / (1u32 << j) as f32;
                feq(Mlx90640::resolution_correction(RESOLUTIONS[i], RESOLUTIONS[j]), want, "C03.resolution_correction.mlx90640");
                feq(Mlx90641::resolution_correction(RESOLUTIONS[i], RESOLUTIONS[j]), want, "C03.resolution_correction.mlx90641");
                j += 1;
            }
            i += 1;
        }
        cover(true, "all pairs");
    }
}
