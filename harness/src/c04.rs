//! C04: a setter changes its own field of its own register, and nothing else.
use crate::bus::*;
use crate::clb::*;
use crate::drv::*;
use crate::every_getter;
use crate::every_setting;
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;
use mlx9064x::Error;

#[inline(always)]
fn set<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(reg: usize, mask: u16, bits: u16, f: impl FnOnce(&mut D<Cam, 1, HH, B>) -> Result<(), Error<H>>) {
    let mut b = Bus::any();
    let dev = any_u8("device");
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, dev, Clb::any());
    // the registers may have changed since the driver last looked
    b.control = any_u16("control now");
    b.i2ccfg = any_u16("i2c config");
    let (s0, c0, i0) = (b.status, b.control, b.i2ccfg);
    let old = if reg == STATUS { s0 } else { c0 };
    let new = (old & !mask) | bits;
    let r = f(&mut d);
    check(is_ok(&r), "C04.set.succeeds");
    check(b.status == if reg == STATUS { new } else { s0 }, "C04.set.status_register");
    check(b.control == if reg == CONTROL { new } else { c0 }, "C04.set.control_register");
    check(b.i2ccfg == i0, "C04.set.other_register_untouched");
    let mut writes = 0;
    let mut i = 0;
    while i < 4 {
        if i < b.n {
            let o = b.log[i];
            check(o.device == dev, "C04.set.bus_address");
            check(o.reg == reg && o.len == 2, "C04.set.accesses_only_that_register");
            if o.write {
                writes += 1;
            }
        }
        i += 1;
    }
    check(b.n <= 4, "C04.set.few_transfers");
    check(writes == if old == new { 0 } else { 1 }, "C04.set.writes_only_when_the_field_differs");
    check(!b.stray, "C04.set.stays_in_the_memory_map");
    cover(old == new, "field already has the value");
    cover(old != new, "field differs");
}

#[inline(always)]
fn get<Cam: MelexisCamera + 'static, const HH: usize, const B: usize>(reg: usize, f: impl FnOnce(&mut D<Cam, 1, HH, B>, u16) -> Result<bool, Error<H>>) {
    let mut b = Bus::any();
    let dev = any_u8("device");
    let mut d: D<Cam, 1, HH, B> = driver(&mut b, dev, Clb::any());
    b.control = any_u16("control now");
    let (s0, c0) = (b.status, b.control);
    let r = f(&mut d, if reg == STATUS { s0 } else { c0 });
    check(matches!(r, Ok(true)), "C04.get.value_on_the_device");
    check(b.n == 1 && !b.log[0].write && b.log[0].reg == reg && b.log[0].len == 2 && b.log[0].device == dev && !b.stray, "C04.get.one_read_no_write");
    check(b.status == s0 && b.control == c0, "C04.get.device_unchanged");
}

crate::harnesses! {
    fn c04_set_640() {
        macro_rules! one { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90640, 24, 1536>($r, $m, $b, $f) }; }
        every_setting!(one)
    }
    fn c04_set_641() {
        macro_rules! one { ($r:expr, $m:expr, $b:expr, $f:expr) => { set::<Mlx90641, 12, 384>($r, $m, $b, $f) }; }
        every_setting!(one)
    }
    fn c04_get_640() {
        macro_rules! one { ($r:expr, $f:expr) => { get::<Mlx90640, 24, 1536>($r, $f) }; }
        every_getter!(one)
    }
    fn c04_get_641() {
        macro_rules! one { ($r:expr, $f:expr) => { get::<Mlx90641, 12, 384>($r, $f) }; }
        every_getter!(one)
    }
}
