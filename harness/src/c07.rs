//! C07: which pixels belong to which subpage.
use crate::vf::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::register::*;

/// walk `$cam`'s membership sequence; `$want(row, column, subpage)` is the specification.
#[inline(always)]
fn walk<C: MelexisCamera>(p: AccessPattern, want: impl Fn(usize, usize, usize) -> bool, name: &'static str, len: &'static str) {
    let mut s = 0;
    while s < 2 {
        let mut it = C::pixels_in_subpage(SUBPAGES[s], p).into_iter();
        let mut i = 0;
        while i < C::NUM_PIXELS {
            match it.next() {
                Some(b) => check(b == want(i / C::WIDTH, i % C::WIDTH, s), name),
                None => check(false, len),
            }
            i += 1;
        }
        check(it.next().is_none(), len);
        s += 1;
    }
    cover(true, "walked");
}

crate::harnesses! {
    fn c07_mlx90640_chess() {
        walk::<Mlx90640>(AccessPattern::Chess, |r, c, s| (r + c) % 2 == s, "C07.640.chess.row_plus_column_parity", "C07.640.chess.one_answer_per_pixel")
    }
    fn c07_mlx90640_interleave() {
        walk::<Mlx90640>(AccessPattern::Interleave, |r, _, s| r % 2 == s, "C07.640.interleave.row_parity", "C07.640.interleave.one_answer_per_pixel")
    }
    fn c07_mlx90641() {
        walk::<Mlx90641>(AccessPattern::Interleave, |_, _, _| true, "C07.641.every_pixel", "C07.641.one_answer_per_pixel");
        walk::<Mlx90641>(AccessPattern::Chess, |_, _, _| true, "C07.641.every_pixel", "C07.641.one_answer_per_pixel")
    }
}
