//! C05: the next image follows the pattern and resolution the driver last saw the camera hold.
use crate::bus::*;
use crate::clb::*;
use crate::drv::*;
use crate::every_getter;
use crate::every_setting;
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;
use mlx9064x::Error;

/// transfers of a frame read: how the pixels are fetched tells the pattern apart
#[inline(always)]
fn image_follows<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(b: &mut Bus, d: &mut D<Cam, 1, HH, B>, c: &Clb<Cam, 1>, seen: u16, p: AccessPattern, temperatures: bool) {
    b.reset();
    // whatever the register holds by now, the driver has not seen it
    b.control = any_u16("control later");
    b.any_ram();
    let r = Frame {
        v_be: b.word(if B == 1536 { 0x0700 } else { 0x0580 }),
        ptat: b.word(if B == 1536 { 0x0720 } else { 0x05A0 }),
        vdd: b.word(if B == 1536 { 0x072A } else { 0x05AA }),
        gain: b.word(if B == 1536 { 0x070A } else { 0x058A }),
        cp: b.word(if B == 1536 { 0x0708 } else { 0x0588 }),
    };
    let em = match c.emissivity {
        Some(e) => e,
        None => 1.0,
    };
    let com = spec_common(c, correction(c.resolution, seen), &r);
    let ir = spec_pixel_ir(c, &com, em, b.word(RAM), r.cp, 0, p, 0);
    let mut out = [any_f32("previous image")];
    let raw = b as *mut Bus;
    let (res, want) = if temperatures {
        let t_ar = spec_t_ar(com.t_a, spec_reflected::<Cam>(None, com.t_a), em);
        (d.generate_image_subpage_to(Subpage::Zero, &mut out), spec_t_o(ir, spec_alpha(c, com.t_a, 0, 0), t_ar, c.k_s_to[basic::<Cam>()]))
    } else {
        (d.generate_raw_image_subpage_to(Subpage::Zero, &mut out), ir)
    };
    let b = unsafe { &mut *raw };
    check(is_ok(&res), "C05.image.succeeds");
    feq(out[0], want, "C05.image.uses_pattern_and_resolution_last_seen");
    if B == 1536 {
        // row 1 belongs to subpage 0 only in chess order
        let mut row1 = false;
        let mut i = 0;
        while i < b.n && i < LOG {
            let o = b.log[i];
            row1 |= !o.write && o.reg <= 0x0421 && 0x0421 < o.reg + o.len / 2;
            i += 1;
        }
        check(row1 == (p == AccessPattern::Chess), "C05.image.read_for_the_pattern_last_seen");
    }
}

/// `seen` selects the last control word the driver has seen, `p` the pattern it holds.
#[inline(always)]
fn set<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(p: usize, fail: usize, reg: usize, mask: u16, bits: u16, f: impl FnOnce(&mut D<Cam, 1, HH, B>) -> Result<(), Error<H>>) {
    let p = PATTERNS[p];
    if reg == CONTROL && mask == 0x1000 && fail > 1 && (bits != 0) != (p == AccessPattern::Chess) {
        return;
    }
    let mut b = Bus::any();
    let first = b.control;
    let mut c: Clb<Cam, 1> = Clb::any();
    c.any_pixels();
    let k = unsafe { core::ptr::read(&c) };
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, c);
    b.control = any_u16("control now");
    let now = b.control;
    let wanted = (now & !mask) | bits;
    b.fail_at = fail;
    let _ = f(&mut d);
    let seen = if reg != CONTROL || fail == 0 {
        first
    } else if fail == 1 {
        now
    } else {
        wanted
    };
    assume((seen & 0x1000 != 0) == (p == AccessPattern::Chess));
    image_follows(&mut b, &mut d, &k, seen, p, fail == 0);
}

#[inline(always)]
fn get<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(p: usize, fail: usize, reg: usize, f: impl FnOnce(&mut D<Cam, 1, HH, B>, u16) -> Result<bool, Error<H>>) {
    let p = PATTERNS[p];
    let mut b = Bus::any();
    let first = b.control;
    let mut c: Clb<Cam, 1> = Clb::any();
    c.any_pixels();
    let k = unsafe { core::ptr::read(&c) };
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, 0x33, c);
    b.control = any_u16("control now");
    let now = b.control;
    b.fail_at = fail;
    let _ = f(&mut d, now);
    let seen = if reg != CONTROL || fail == 0 { first } else { now };
    assume((seen & 0x1000 != 0) == (p == AccessPattern::Chess));
    image_follows(&mut b, &mut d, &k, seen, p, fail == 0);
}

macro_rules! run {
    ($cam:ty, $h:literal, $b:literal, $p:literal, $fail:expr) => {{
        macro_rules! s { ($r:expr, $m:expr, $bb:expr, $f:expr) => { set::<$cam, $h, $b>($p, $fail, $r, $m, $bb, $f) }; }
        every_setting!(s);
        macro_rules! g { ($r:expr, $f:expr) => { if $fail != 1 { get::<$cam, $h, $b>($p, $fail, $r, $f) } }; }
        every_getter!(g);
    }};
}

crate::harnesses! {
    fn c05_640_interleave() { run!(Mlx90640, 24, 1536, 1, NEVER) }
    fn c05_640_chess() { run!(Mlx90640, 24, 1536, 0, NEVER) }
    fn c05_640_interleave_read_fails() { run!(Mlx90640, 24, 1536, 1, 0) }
    fn c05_640_chess_read_fails() { run!(Mlx90640, 24, 1536, 0, 0) }
    fn c05_640_interleave_write_fails() { run!(Mlx90640, 24, 1536, 1, 1) }
    fn c05_640_chess_write_fails() { run!(Mlx90640, 24, 1536, 0, 1) }
    fn c05_641_interleave() { run!(Mlx90641, 12, 384, 1, NEVER) }
    fn c05_641_chess() { run!(Mlx90641, 12, 384, 0, NEVER) }
    fn c05_641_interleave_read_fails() { run!(Mlx90641, 12, 384, 1, 0) }
    fn c05_641_chess_read_fails() { run!(Mlx90641, 12, 384, 0, 0) }
    fn c05_641_interleave_write_fails() { run!(Mlx90641, 12, 384, 1, 1) }
    fn c05_641_chess_write_fails() { run!(Mlx90641, 12, 384, 0, 1) }
}
