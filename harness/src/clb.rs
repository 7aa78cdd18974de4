//! An arbitrary calibration: every value the `CalibrationData` trait can hand out is a universally
//! quantified input, separately for each subpage and access pattern.
use crate::vf::*;
use core::marker::PhantomData;
use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::register::{AccessPattern, Resolution, Subpage};

pub struct Clb<Cam, const N: usize> {
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub resolution: Resolution,
    pub v_dd_0: f32,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub k_s_to: [f32; 8],
    pub ranges: usize,
    pub emissivity: Option<f32>,
    pub tgc: Option<f32>,
    pub offset_cp: [i16; 2],
    pub alpha_cp: [f32; 2],
    pub k_v_cp: [f32; 2],
    pub k_ta_cp: [f32; 2],
    /// [pattern][subpage]
    pub comp_cp: [[Option<f32>; 2]; 2],
    /// [subpage][pixel]
    pub offset: [[i16; N]; 2],
    pub alpha: [[f32; N]; 2],
    pub k_v: [[f32; N]; 2],
    pub k_ta: [[f32; N]; 2],
    /// [pattern]
    pub comp_some: [bool; 2],
    pub comp: [[f32; N]; 2],
    pub camera: PhantomData<Cam>,
}

pub fn any_resolution(name: &'static str) -> Resolution {
    match any_u8(name) & 3 {
        0 => Resolution::Sixteen,
        1 => Resolution::Seventeen,
        2 => Resolution::Eighteen,
        _ => Resolution::Nineteen,
    }
}

impl<Cam: MelexisCamera, const N: usize> Clb<Cam, N> {
    /// any calibration at all; `subpage`/`pattern` select which per-pixel tables are inputs (the
    /// others hold a poison value that no correct computation may use).
    #[inline(always)]
    pub fn any() -> Self {
        let mut c = Clb {
            k_v_dd: any_i16("k_v_dd"),
            v_dd_25: any_i16("v_dd_25"),
            resolution: any_resolution("resolution"),
            v_dd_0: any_f32("v_dd_0@f:3.0:3.6"),
            k_v_ptat: any_f32("k_v_ptat@f:-0.01:0.01"),
            k_t_ptat: any_f32("k_t_ptat@f:30:50"),
            v_ptat_25: any_f32("v_ptat_25@f:10000:14000"),
            alpha_ptat: any_f32("alpha_ptat@f:8:12"),
            gain: any_f32("gain@f:4000:8000"),
            k_s_ta: any_f32("k_s_ta@f:-0.01:0.01"),
            k_s_to: [0.0; 8],
            ranges: 0,
            emissivity: any_opt_f32("emissivity_some", "emissivity@f:0.5:1"),
            tgc: any_opt_f32("tgc_some", "tgc@f:-2:2"),
            offset_cp: [any_i16("offset_cp0@i:-200:200"), any_i16("offset_cp1@i:-200:200")],
            alpha_cp: [any_f32("alpha_cp0@f:0:0.000001"), any_f32("alpha_cp1@f:0:0.000001")],
            k_v_cp: [any_f32("k_v_cp0@f:-1:1"), any_f32("k_v_cp1@f:-1:1")],
            k_ta_cp: [any_f32("k_ta_cp0@f:-0.01:0.01"), any_f32("k_ta_cp1@f:-0.01:0.01")],
            comp_cp: [
                [any_opt_f32("comp_cp00_some", "comp_cp00@f:-5:5"), any_opt_f32("comp_cp01_some", "comp_cp01@f:-5:5")],
                [any_opt_f32("comp_cp10_some", "comp_cp10@f:-5:5"), any_opt_f32("comp_cp11_some", "comp_cp11@f:-5:5")],
            ],
            offset: [[0; N]; 2],
            alpha: [[0.0; N]; 2],
            k_v: [[0.0; N]; 2],
            k_ta: [[0.0; N]; 2],
            comp_some: [any_bool("comp_some0"), any_bool("comp_some1")],
            comp: [[0.0; N]; 2],
            camera: PhantomData,
        };
        f32s(&mut c.k_s_to, "k_s_to@f:-0.001:0.001");
        c.ranges = if Cam::BASIC_TEMPERATURE_RANGE == 1 { 4 } else { 8 };
        c
    }
    #[inline(always)]
    pub fn any_pixels(&mut self) {
        i16s(&mut self.offset[0], "offset0@i:-200:200");
        i16s(&mut self.offset[1], "offset1@i:-200:200");
        f32s(&mut self.alpha[0], "alpha0@f:0.00000001:0.0000002");
        f32s(&mut self.alpha[1], "alpha1@f:0.00000001:0.0000002");
        f32s(&mut self.k_v[0], "k_v0@f:-1:1");
        f32s(&mut self.k_v[1], "k_v1@f:-1:1");
        f32s(&mut self.k_ta[0], "k_ta0@f:-0.01:0.01");
        f32s(&mut self.k_ta[1], "k_ta1@f:-0.01:0.01");
        f32s(&mut self.comp[0], "comp0@f:-5:5");
        f32s(&mut self.comp[1], "comp1@f:-5:5");
    }
}

pub struct CompIter<'a> {
    it: core::slice::Iter<'a, f32>,
    some: bool,
}
impl<'a> Iterator for CompIter<'a> {
    type Item = Option<&'a f32>;
    #[inline(always)]
    fn next(&mut self) -> Option<Option<&'a f32>> {
        match self.it.next() {
            Some(v) => Some(if self.some { Some(v) } else { None }),
            None => None,
        }
    }
}

pub struct NoFlags;
impl FlaggedPixels for NoFlags {
    fn any(&self) -> bool {
        false
    }
    type FlaggedIterator = core::iter::Empty<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        core::iter::empty()
    }
}

impl<'a, Cam: MelexisCamera + 'a, const N: usize> CalibrationData<'a> for Clb<Cam, N> {
    type Camera = Cam;
    fn k_v_dd(&self) -> i16 {
        self.k_v_dd
    }
    fn v_dd_25(&self) -> i16 {
        self.v_dd_25
    }
    fn resolution(&self) -> Resolution {
        self.resolution
    }
    fn v_dd_0(&self) -> f32 {
        self.v_dd_0
    }
    fn k_v_ptat(&self) -> f32 {
        self.k_v_ptat
    }
    fn k_t_ptat(&self) -> f32 {
        self.k_t_ptat
    }
    fn v_ptat_25(&self) -> f32 {
        self.v_ptat_25
    }
    fn alpha_ptat(&self) -> f32 {
        self.alpha_ptat
    }
    fn gain(&self) -> f32 {
        self.gain
    }
    fn k_s_ta(&self) -> f32 {
        self.k_s_ta
    }
    fn corner_temperatures(&self) -> &[i16] {
        &[0i16; 8][..self.ranges]
    }
    fn k_s_to(&self) -> &[f32] {
        &self.k_s_to[..self.ranges]
    }
    fn alpha_correction(&self) -> &[f32] {
        &[0f32; 8][..self.ranges]
    }
    fn emissivity(&self) -> Option<f32> {
        self.emissivity
    }
    type OffsetReferenceIterator = core::slice::Iter<'a, i16>;
    fn offset_reference_pixels(&'a self, subpage: Subpage) -> Self::OffsetReferenceIterator {
        self.offset[subpage as usize].iter()
    }
    fn offset_reference_cp(&self, subpage: Subpage) -> i16 {
        self.offset_cp[subpage as usize]
    }
    type AlphaIterator = core::slice::Iter<'a, f32>;
    fn alpha_pixels(&'a self, subpage: Subpage) -> Self::AlphaIterator {
        self.alpha[subpage as usize].iter()
    }
    fn alpha_cp(&self, subpage: Subpage) -> f32 {
        self.alpha_cp[subpage as usize]
    }
    type KvIterator = core::slice::Iter<'a, f32>;
    fn k_v_pixels(&'a self, subpage: Subpage) -> Self::KvIterator {
        self.k_v[subpage as usize].iter()
    }
    fn k_v_cp(&self, subpage: Subpage) -> f32 {
        self.k_v_cp[subpage as usize]
    }
    type KtaIterator = core::slice::Iter<'a, f32>;
    fn k_ta_pixels(&'a self, subpage: Subpage) -> Self::KtaIterator {
        self.k_ta[subpage as usize].iter()
    }
    fn k_ta_cp(&self, subpage: Subpage) -> f32 {
        self.k_ta_cp[subpage as usize]
    }
    fn temperature_gradient_coefficient(&self) -> Option<f32> {
        self.tgc
    }
    type AccessPatternCompensation = CompIter<'a>;
    fn access_pattern_compensation_pixels(&'a self, p: AccessPattern) -> CompIter<'a> {
        CompIter { it: self.comp[p as usize].iter(), some: self.comp_some[p as usize] }
    }
    fn access_pattern_compensation_cp(&self, subpage: Subpage, p: AccessPattern) -> Option<f32> {
        self.comp_cp[p as usize][subpage as usize]
    }
    type FailedPixels = NoFlags;
    fn failed_pixels(&'a self) -> NoFlags {
        NoFlags
    }
    type OutlierPixels = NoFlags;
    fn outlier_pixels(&'a self) -> NoFlags {
        NoFlags
    }
}

// ---------------------------------------------------------------------------------------------
// The datasheet formulas (MLX90640 / MLX90641 datasheets, sections 11.1.2 and 11.2.2).

pub struct Frame {
    pub v_be: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: i16,
}
impl Frame {
    #[inline(always)]
    pub fn any() -> Frame {
        Frame {
            v_be: any_i16("ram_v_be"),
            ptat: any_i16("ram_ptat"),
            vdd: any_i16("ram_v_dd"),
            gain: any_i16("ram_gain"),
            cp: any_i16("ram_cp"),
        }
    }
}

pub struct Common {
    pub gain: f32,
    pub v_dd: f32,
    pub t_a: f32,
}

#[inline(always)]
pub fn spec_delta_v<Cam, const N: usize>(c: &Clb<Cam, N>, vdd: i16) -> f32 {
    (vdd as f32 - c.v_dd_25 as f32) / c.k_v_dd as f32
}
/// = (corr * raw - VDD25) / KVDD + VDD0
#[inline(always)]
pub fn spec_v_dd<Cam, const N: usize>(c: &Clb<Cam, N>, corr: f32, dv: f32) -> f32 {
    corr * dv + (corr - 1.0) * c.v_dd_25 as f32 / c.k_v_dd as f32 + c.v_dd_0
}
#[inline(always)]
pub fn spec_v_ptat_art<Cam, const N: usize>(c: &Clb<Cam, N>, ptat: i16, v_be: i16) -> f32 {
    ptat as f32 / (ptat as f32 * c.alpha_ptat + v_be as f32) * 262144.0
}
#[inline(always)]
pub fn spec_t_a<Cam, const N: usize>(c: &Clb<Cam, N>, art: f32, dv: f32) -> f32 {
    (art / (1.0 + c.k_v_ptat * dv) - c.v_ptat_25) / c.k_t_ptat + 25.0
}
#[inline(always)]
pub fn spec_common<Cam, const N: usize>(c: &Clb<Cam, N>, corr: f32, r: &Frame) -> Common {
    let dv = spec_delta_v(c, r.vdd);
    Common { gain: c.gain / r.gain as f32, v_dd: spec_v_dd(c, corr, dv), t_a: spec_t_a(c, spec_v_ptat_art(c, r.ptat, r.v_be), dv) }
}
#[inline(always)]
pub fn spec_v_ir(raw: i16, k: &Common, emissivity: f32, offset: i16, k_v: f32, k_ta: f32, comp: Option<f32>) -> f32 {
    let comp = match comp {
        Some(c) => c,
        None => 0.0,
    };
    let os = raw as f32 * k.gain + comp - offset as f32 * (1.0 + k_ta * (k.t_a - 25.0)) * (1.0 + k_v * (k.v_dd - 3.3));
    os / emissivity
}
#[inline(always)]
pub fn p4(x: f32) -> f32 {
    (x * x) * (x * x)
}
#[inline(always)]
pub fn spec_t_ar(t_a: f32, t_r: f32, emissivity: f32) -> f32 {
    let a = p4(t_a + 273.15);
    let r = p4(t_r + 273.15);
    if emissivity == 1.0 {
        a
    } else {
        r - (r - a) / emissivity
    }
}
#[inline(always)]
pub fn spec_s_corr<Cam, const N: usize>(c: &Clb<Cam, N>, t_a: f32) -> f32 {
    1.0 + c.k_s_ta * (t_a - 25.0)
}
#[inline(always)]
pub fn spec_t_o(v_ir: f32, alpha: f32, t_ar: f32, k_s_to: f32) -> f32 {
    let a3 = alpha.powi(3);
    let a4 = alpha.powi(4);
    let s_x = k_s_to * (a3 * v_ir + a4 * t_ar).powf(0.25);
    (v_ir / (alpha * (1.0 - k_s_to * 273.15) + s_x) + t_ar).powf(0.25) - 273.15
}

/// membership as the datasheet defines it (C07 proves the camera iterators agree with it)
#[inline(always)]
pub fn member(w: usize, i: usize, s: usize, p: AccessPattern) -> bool {
    let (r, c) = (i / w, i % w);
    w == 16 || if p == AccessPattern::Chess { (r + c) % 2 == s } else { r % 2 == s }
}

pub fn ram(r: &Frame) -> mlx9064x::calculations::RamData {
    mlx9064x::calculations::RamData { t_a_v_be: r.v_be, t_a_ptat: r.ptat, v_dd_pixel: r.vdd, gain: r.gain, compensation_pixel: r.cp }
}

/// specification of one pixel of one frame
#[inline(always)]
pub fn spec_pixel_ir<Cam, const N: usize>(c: &Clb<Cam, N>, com: &Common, em: f32, raw: i16, cp: i16, s: usize, p: AccessPattern, i: usize) -> f32 {
    let comp = if c.comp_some[p as usize] { Some(c.comp[p as usize][i]) } else { None };
    let v = spec_v_ir(raw, com, em, c.offset[s][i], c.k_v[s][i], c.k_ta[s][i], comp);
    match c.tgc {
        Some(tgc) => v - tgc * spec_v_ir(cp, com, em, c.offset_cp[s], c.k_v_cp[s], c.k_ta_cp[s], c.comp_cp[p as usize][s]),
        None => v,
    }
}

#[inline(always)]
pub fn spec_reflected<Cam: MelexisCamera>(t_r: Option<f32>, t_a: f32) -> f32 {
    match t_r {
        Some(t) => t,
        None => t_a - if Cam::WIDTH == 32 { 8.0 } else { 5.0 },
    }
}
#[inline(always)]
pub fn spec_alpha<Cam, const N: usize>(c: &Clb<Cam, N>, t_a: f32, s: usize, i: usize) -> f32 {
    let a = match c.tgc {
        Some(tgc) => c.alpha[s][i] - c.alpha_cp[s] * tgc,
        None => c.alpha[s][i],
    };
    a * spec_s_corr(c, t_a)
}
#[inline(always)]
pub fn basic<Cam: MelexisCamera>() -> usize {
    if Cam::WIDTH == 32 { 1 } else { 2 }
}
