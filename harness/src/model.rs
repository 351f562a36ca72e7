//! Reference model: EEPROM decoding and frame processing as documented by the datasheets, evaluated
//! in double precision with a running bound on single-precision error.
use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::AccessPattern;

use crate::ev::Ev;
use crate::spec::*;

/// Everything a calibration says, in reference form. Index 0/1 is the subpage where it matters.
#[derive(Clone)]
pub struct Cal {
    pub cam: Cam,
    pub k_v_dd: i32,
    pub v_dd_25: i32,
    /// 0..=3 for 16..=19 bits
    pub res: u16,
    pub v_dd_0: f32,
    pub k_v_ptat: Ev,
    pub k_t_ptat: Ev,
    pub v_ptat_25: Ev,
    pub alpha_ptat: Ev,
    pub gain: Ev,
    pub k_s_ta: Ev,
    pub ct: Vec<i32>,
    pub ks_to: Vec<Ev>,
    pub emissivity: Option<Ev>,
    pub tgc: Option<Ev>,
    pub offset: [Vec<i32>; 2],
    pub alpha: [Vec<Ev>; 2],
    pub kv: [Vec<Ev>; 2],
    pub kta: [Vec<Ev>; 2],
    pub offset_cp: [i32; 2],
    pub alpha_cp: [Ev; 2],
    pub kv_cp: [Ev; 2],
    pub kta_cp: [Ev; 2],
    /// [chess, interleave]
    pub comp: [Vec<Option<Ev>>; 2],
    /// [subpage][chess, interleave]
    pub comp_cp: [[Option<Ev>; 2]; 2],
    pub failed: Vec<bool>,
    pub outlier: Vec<bool>,
}

fn pat(a: AccessPattern) -> usize {
    match a {
        AccessPattern::Chess => 0,
        AccessPattern::Interleave => 1,
    }
}

fn exp2(n: i32) -> f64 {
    f64::from(n).exp2()
}

/// `n / 2^k`, exact in both precisions (up to `f32` range).
fn frac(n: i32, k: i32) -> Ev {
    Ev::exact(f64::from(n) / exp2(k))
}

impl Cal {
    pub fn from_eeprom(cam: Cam, w: &[u16]) -> Cal {
        match cam {
            Cam::M640 => decode_640(w),
            Cam::M641 => {
                let data: Vec<u16> = w.iter().map(|w| w & 0x07FF).collect();
                decode_641(&data)
            }
        }
    }

    /// Take the constants from an implementation of the calibration interface, as exact values.
    pub fn from_trait<'a, C: CalibrationData<'a>>(cam: Cam, c: &'a C) -> Cal {
        let n = <C::Camera as MelexisCamera>::NUM_PIXELS;
        let e = |v: f32| Ev::from(v);
        let both = |f: &dyn Fn(usize) -> Vec<Ev>| [f(0), f(1)];
        let comp = |a: AccessPattern| -> Vec<Option<Ev>> {
            c.access_pattern_compensation_pixels(a).take(4 * n).map(|o| o.map(|v| e(*v))).collect()
        };
        let flags = |it: Vec<usize>| {
            let mut v = vec![false; n];
            for i in it {
                if i < n {
                    v[i] = true;
                }
            }
            v
        };
        Cal {
            cam,
            k_v_dd: i32::from(c.k_v_dd()),
            v_dd_25: i32::from(c.v_dd_25()),
            res: res_raw(c.resolution()),
            v_dd_0: c.v_dd_0(),
            k_v_ptat: e(c.k_v_ptat()),
            k_t_ptat: e(c.k_t_ptat()),
            v_ptat_25: e(c.v_ptat_25()),
            alpha_ptat: e(c.alpha_ptat()),
            gain: e(c.gain()),
            k_s_ta: e(c.k_s_ta()),
            ct: c.corner_temperatures().iter().map(|v| i32::from(*v)).collect(),
            ks_to: c.k_s_to().iter().map(|v| e(*v)).collect(),
            emissivity: c.emissivity().map(e),
            tgc: c.temperature_gradient_coefficient().map(e),
            offset: [0, 1]
                .map(|s| c.offset_reference_pixels(sp(s)).take(4 * n).map(|v| i32::from(*v)).collect()),
            alpha: both(&|s| c.alpha_pixels(sp(s)).take(4 * n).map(|v| e(*v)).collect()),
            kv: both(&|s| c.k_v_pixels(sp(s)).take(4 * n).map(|v| e(*v)).collect()),
            kta: both(&|s| c.k_ta_pixels(sp(s)).take(4 * n).map(|v| e(*v)).collect()),
            offset_cp: [0, 1].map(|s| i32::from(c.offset_reference_cp(sp(s)))),
            alpha_cp: [0, 1].map(|s| e(c.alpha_cp(sp(s)))),
            kv_cp: [0, 1].map(|s| e(c.k_v_cp(sp(s)))),
            kta_cp: [0, 1].map(|s| e(c.k_ta_cp(sp(s)))),
            comp: [comp(AccessPattern::Chess), comp(AccessPattern::Interleave)],
            comp_cp: [0, 1].map(|s| {
                [AccessPattern::Chess, AccessPattern::Interleave]
                    .map(|a| c.access_pattern_compensation_cp(sp(s), a).map(e))
            }),
            failed: flags(c.failed_pixels().iter_flagged().collect()),
            outlier: flags(c.outlier_pixels().iter_flagged().collect()),
        }
    }
}

/// The MLX90640 calibration layout (datasheet section 11.1, EEPROM map).
fn decode_640(w: &[u16]) -> Cal {
    let at = |a: u16| w[usize::from(a - EEPROM_BASE)];
    let hi = |v: u16| sx(v >> 8, 8);
    let lo = |v: u16| sx(v & 0xFF, 8);
    // row and column sums of the offset and sensitivity blocks
    let block = |base: u16| -> Vec<i32> {
        let scales = at(base);
        let (rs, cs) = (bits(scales, 8, 4), bits(scales, 4, 4));
        let avg = sx(at(base + 1), 16);
        (0..768)
            .map(|p| {
                let (r, c) = (p / 32, p % 32);
                let row = sx(bits(at(base + 2 + (r / 4) as u16), 4 * (r as u32 % 4), 4), 4);
                let col = sx(bits(at(base + 8 + (c / 4) as u16), 4 * (c as u32 % 4), 4), 4);
                avg + row * (1 << rs) + col * (1 << cs)
            })
            .collect()
    };
    let px = |p: usize| w[0x40 + p];
    let offset_rem = bits(at(0x2410), 0, 4);
    let alpha_rem = bits(at(0x2420), 0, 4);
    let alpha_scale = i32::from(bits(at(0x2420), 12, 4));
    let offset: Vec<i32> = block(0x2410)
        .iter()
        .enumerate()
        .map(|(p, b)| b + sx(bits(px(p), 10, 6), 6) * (1 << offset_rem))
        .collect();
    let alpha: Vec<Ev> = block(0x2420)
        .iter()
        .enumerate()
        .map(|(p, b)| frac(b + sx(bits(px(p), 4, 6), 6) * (1 << alpha_rem), alpha_scale + 30))
        .collect();
    let s38 = at(0x2438);
    let kv_scale = i32::from(bits(s38, 8, 4));
    let kta1 = i32::from(bits(s38, 4, 4)) + 8;
    let kta2 = i32::from(bits(s38, 0, 4));
    // Indices by (row parity, column parity), 0-indexed.
    let kv_avg = |r: usize, c: usize| {
        let shift = match (r % 2, c % 2) {
            (0, 0) => 12,
            (1, 0) => 8,
            (0, 1) => 4,
            _ => 0,
        };
        sx(bits(at(0x2434), shift, 4), 4)
    };
    let kta_avg = |r: usize, c: usize| match (r % 2, c % 2) {
        (0, 0) => hi(at(0x2436)),
        (1, 0) => lo(at(0x2436)),
        (0, 1) => hi(at(0x2437)),
        _ => lo(at(0x2437)),
    };
    let kv: Vec<Ev> = (0..768).map(|p| frac(kv_avg(p / 32, p % 32), kv_scale)).collect();
    let kta: Vec<Ev> = (0..768)
        .map(|p| {
            frac(kta_avg(p / 32, p % 32) + sx(bits(px(p), 1, 3), 3) * (1 << kta2), kta1)
        })
        .collect();
    let il = at(0x2435);
    let c1 = f64::from(sx(bits(il, 0, 6), 6)) / 16.0;
    let c2 = f64::from(sx(bits(il, 6, 5), 5)) / 2.0;
    let c3 = f64::from(sx(bits(il, 11, 5), 5)) / 8.0;
    let interleave: Vec<Option<Ev>> = (0..768)
        .map(|p| {
            let v = match p % 4 {
                1 => c2 - c3,
                3 => -(c2 + c3),
                _ => -c3,
            };
            Some(Ev::exact(if (p / 32) % 2 == 0 { v } else { -v }))
        })
        .collect();
    let acp0 = frac(i32::from(bits(at(0x2439), 0, 10)), alpha_scale + 27);
    let acp1 = acp0 * (Ev::exact(1.0) + frac(sx(bits(at(0x2439), 10, 6), 6), 7));
    let ocp0 = sx(bits(at(0x243A), 0, 10), 10);
    let ocp1 = ocp0 + sx(bits(at(0x243A), 10, 6), 6);
    let tgc = lo(at(0x243C));
    let step = i32::from(bits(at(0x243F), 12, 2)) * 10;
    let ct2 = i32::from(bits(at(0x243F), 4, 4)) * step;
    let ct3 = i32::from(bits(at(0x243F), 8, 4)) * step + ct2;
    let ks_scale = i32::from(bits(at(0x243F), 0, 4)) + 8;
    let same = |v: Vec<Ev>| [v.clone(), v];
    Cal {
        cam: Cam::M640,
        k_v_dd: hi(at(0x2433)) * 32,
        v_dd_25: (i32::from(at(0x2433) & 0xFF) - 256) * 32 - 8192,
        res: bits(s38, 12, 2),
        v_dd_0: 3.3,
        k_v_ptat: frac(sx(bits(at(0x2432), 10, 6), 6), 12),
        k_t_ptat: frac(sx(bits(at(0x2432), 0, 10), 10), 3),
        v_ptat_25: frac(sx(at(0x2431), 16), 0),
        alpha_ptat: Ev::exact(f64::from(bits(at(0x2410), 12, 4)) / 4.0 + 8.0),
        gain: frac(sx(at(0x2430), 16), 0),
        k_s_ta: frac(hi(at(0x243C)), 13),
        ct: vec![-40, 0, ct2, ct3],
        ks_to: [lo(at(0x243D)), hi(at(0x243D)), lo(at(0x243E)), hi(at(0x243E))]
            .iter()
            .map(|v| frac(*v, ks_scale))
            .collect(),
        emissivity: None,
        tgc: (tgc != 0).then(|| frac(tgc, 5)),
        offset: [offset.clone(), offset],
        alpha: same(alpha),
        kv: same(kv),
        kta: same(kta),
        offset_cp: [ocp0, ocp1],
        alpha_cp: [acp0, acp1],
        kv_cp: [frac(hi(at(0x243B)), kv_scale); 2],
        kta_cp: [frac(lo(at(0x243B)), kta1); 2],
        comp: [vec![None; 768], interleave],
        comp_cp: [[None, None], [None, Some(Ev::exact(c1))]],
        failed: (0..768).map(|p| px(p) == 0).collect(),
        outlier: (0..768).map(|p| px(p) & 1 == 1).collect(),
    }
}

/// The MLX90641 calibration layout; `w` holds the 11-bit data values.
fn decode_641(w: &[u16]) -> Cal {
    let at = |a: u16| w[usize::from(a - EEPROM_BASE)];
    let s11 = |a: u16| sx(at(a), 11);
    let wide = |a: u16| (at(a) << 5) | at(a + 1);
    let split = |a: u16| (i32::from(bits(at(a), 5, 6)), i32::from(bits(at(a), 0, 5)));
    let offset_scale = bits(at(0x2410), 5, 6);
    let offset_avg = sx(wide(0x2411), 16);
    let kta_avg = f64::from(s11(0x2415));
    let (kta1, kta2) = split(0x2416);
    let kv_avg = f64::from(s11(0x2417));
    let (kv1, kv2) = split(0x2418);
    let scales: Vec<i32> = (0..3)
        .flat_map(|i| {
            let (a, b) = split(0x2419 + i);
            [a + 20, b + 20]
        })
        .collect();
    let word = |base: u16, p: usize| w[usize::from(base - EEPROM_BASE) + p];
    let offset = |base: u16| -> Vec<i32> {
        (0..192).map(|p| offset_avg + sx(word(base, p), 11) * (1i32 << offset_scale)).collect()
    };
    let alpha: Vec<Ev> = (0..192)
        .map(|p| {
            let row = p / 32;
            let reference = frac(i32::from(at(0x241C + row as u16)), scales[row]);
            Ev::exact(f64::from(word(0x2500, p))) / Ev::exact(2047.0) * reference
        })
        .collect();
    let konst = |raw: i32, avg: f64, s1: i32, s2: i32| {
        (Ev::exact(f64::from(raw) * exp2(s2)) + Ev::exact(avg)) / Ev::exact(exp2(s1))
    };
    let kta: Vec<Ev> = (0..192)
        .map(|p| konst(sx(bits(word(0x25C0, p), 5, 6), 6), kta_avg, kta1, kta2))
        .collect();
    let kv: Vec<Ev> = (0..192)
        .map(|p| konst(sx(bits(word(0x25C0, p), 0, 5), 5), kv_avg, kv1, kv2))
        .collect();
    let cp = |a: u16| frac(sx(bits(at(a), 0, 6), 6), i32::from(bits(at(a), 6, 5)));
    let ocp = sx(wide(0x242F), 16);
    let ks = i32::from(at(0x2434));
    let failed: Vec<bool> = (0..192)
        .map(|p| [0x2440, 0x2500, 0x25C0, 0x2680].iter().all(|b| word(*b, p) == 0))
        .collect();
    let alpha_cp = frac(i32::from(at(0x242D)), i32::from(at(0x242E)));
    Cal {
        cam: Cam::M641,
        k_v_dd: s11(0x2427) * 32,
        v_dd_25: s11(0x2426) * 32,
        res: bits(at(0x2433), 9, 2),
        v_dd_0: 3.3,
        k_v_ptat: frac(s11(0x242B), 12),
        k_t_ptat: frac(s11(0x242A), 3),
        v_ptat_25: frac(i32::from(wide(0x2428)), 0),
        alpha_ptat: frac(i32::from(at(0x242C)), 7),
        gain: frac(i32::from(wide(0x2424)), 0),
        k_s_ta: frac(s11(0x2422), 15),
        ct: vec![
            -40,
            -20,
            0,
            80,
            120,
            i32::from(at(0x243A)),
            i32::from(at(0x243C)),
            i32::from(at(0x243E)),
        ],
        ks_to: [0x2435, 0x2436, 0x2437, 0x2438, 0x2439, 0x243B, 0x243D, 0x243F]
            .iter()
            .map(|a| frac(s11(*a), ks))
            .collect(),
        emissivity: Some(frac(s11(0x2423), 9)),
        tgc: Some(frac(sx(bits(at(0x2433), 0, 9), 9), 6)),
        offset: [offset(0x2440), offset(0x2680)],
        alpha: [alpha.clone(), alpha],
        kv: [kv.clone(), kv],
        kta: [kta.clone(), kta],
        offset_cp: [ocp, ocp],
        alpha_cp: [alpha_cp; 2],
        kv_cp: [cp(0x2432); 2],
        kta_cp: [cp(0x2431); 2],
        comp: [vec![None; 192], vec![None; 192]],
        comp_cp: [[None, None], [None, None]],
        outlier: failed.clone(),
        failed,
    }
}

/// The chain of sensitivity corrections from the basic range outwards.
pub fn alpha_corrections(basic: usize, ct: &[i32], ks: &[Ev]) -> Vec<Ev> {
    let one = Ev::exact(1.0);
    let step = |i: usize| one + ks[i] * Ev::exact(f64::from(ct[i + 1] - ct[i]));
    let mut out = vec![one; ct.len()];
    for i in basic + 1..ct.len() {
        out[i] = out[i - 1] * step(i - 1);
    }
    for i in (0..basic).rev() {
        out[i] = out[i + 1] / step(i);
    }
    out
}

// ------------------------------------------------------------------ frames

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Aux {
    pub vbe: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: i16,
}

pub struct Common {
    pub delta_v: Ev,
    pub v_dd: Ev,
    pub v_ptat_art: Ev,
    pub t_a: Ev,
    pub gain: Ev,
}

pub fn common(cal: &Cal, rc: f32, x: &Aux) -> Common {
    let i = |v: i16| Ev::exact(f64::from(v));
    let n = |v: i32| Ev::exact(f64::from(v));
    let one = Ev::exact(1.0);
    let k = n(cal.k_v_dd);
    let delta_v = (i(x.vdd) - n(cal.v_dd_25)) / k;
    let r = Ev::from(rc);
    // Room for evaluating the terms separately.
    let room = f64::from(rc).abs().max(1.0) * (f64::from(x.vdd).abs() + 2.0 * f64::from(cal.v_dd_25).abs())
        / f64::from(cal.k_v_dd).abs();
    let v_dd = ((r * i(x.vdd) - n(cal.v_dd_25)) / k + Ev::from(cal.v_dd_0)).room(room);
    let v_ptat_art = i(x.ptat) / (i(x.ptat) * cal.alpha_ptat + i(x.vbe)) * Ev::exact(262144.0);
    let t_a = (v_ptat_art / (one + cal.k_v_ptat * delta_v) - cal.v_ptat_25) / cal.k_t_ptat + Ev::exact(25.0);
    let gain = cal.gain / i(x.gain);
    Common { delta_v, v_dd, v_ptat_art, t_a, gain }
}

#[allow(clippy::too_many_arguments)]
pub fn v_ir(
    raw: i16,
    gain: Ev,
    t_a: Ev,
    v_dd: Ev,
    emissivity: Ev,
    offset: i32,
    kv: Ev,
    kta: Ev,
    comp: Option<Ev>,
) -> Ev {
    let one = Ev::exact(1.0);
    let mut g = Ev::exact(f64::from(raw)) * gain;
    if let Some(c) = comp {
        g = g + c;
    }
    let off = Ev::exact(f64::from(offset))
        * (one + kta * (t_a - Ev::exact(25.0)))
        * (one + kv * (v_dd - Ev::from(3.3f32)));
    (g - off) / emissivity
}

/// What the reference says about one value.
#[derive(Clone, Copy, Debug)]
pub enum Want {
    Is(Ev),
    /// The formula is certainly undefined (fourth root of a negative number).
    Undefined,
    /// Too ill-conditioned to say.
    Unknown,
}

impl Want {
    pub fn of(e: Ev) -> Want {
        if e.ok() {
            Want::Is(e)
        } else {
            Want::Unknown
        }
    }
    /// `None`: no verdict.
    pub fn agrees(&self, actual: f32) -> Option<bool> {
        match self {
            Want::Is(e) => e.agrees(actual),
            Want::Undefined => Some(!actual.is_finite()),
            Want::Unknown => None,
        }
    }
}

pub fn t_ar(t_a: Ev, t_r: Ev, emissivity: f32) -> Ev {
    let k = Ev::from(273.15f32);
    let a = (t_a + k).pow(4);
    if emissivity == 1.0 {
        a
    } else {
        let r = (t_r + k).pow(4);
        let e = Ev::from(emissivity);
        let x = r - (r - a) / e;
        // Room for the other way of writing the same thing.
        let y = (a - (Ev::exact(1.0) - e) * r) / e;
        if x.ok() && y.ok() {
            Ev { v: x.v, e: x.e.max(y.e) }
        } else {
            Ev::BAD
        }
    }
}

pub fn temperature(v: Ev, alpha: Ev, t_ar: Ev, ks: Ev) -> Want {
    let k = Ev::from(273.15f32);
    let one = Ev::exact(1.0);
    let certainly_negative = |e: &Ev| e.ok() && e.v < -4.0 * e.e && e.v < -1e-30;
    let inner = alpha.pow(3) * v + alpha.pow(4) * t_ar;
    if certainly_negative(&inner) {
        return Want::Undefined;
    }
    let s_x = if inner.ok() && inner.v == 0.0 && inner.e == 0.0 { Ev::exact(0.0) } else { ks * inner.root4() };
    let outer = v / (alpha * (one - ks * k) + s_x) + t_ar;
    if certainly_negative(&outer) {
        return Want::Undefined;
    }
    Want::of(outer.root4() - k)
}

/// One frame as the device holds it.
pub struct Shot<'a> {
    /// RAM, from `RAM_BASE`.
    pub ram: &'a [u16],
    pub s: usize,
    pub ap: AccessPattern,
    pub rc: f32,
    pub emissivity: f32,
    pub reflected: Option<f32>,
}

impl Shot<'_> {
    pub fn aux(&self, cam: Cam) -> Aux {
        let w = |a: u16| self.ram[usize::from(a - RAM_BASE)] as i16;
        Aux {
            vbe: w(cam.a_vbe()),
            ptat: w(cam.a_ptat()),
            vdd: w(cam.a_vdd()),
            gain: w(cam.a_gain()),
            cp: w(cam.a_cp(self.s)),
        }
    }
    pub fn raw(&self, cam: Cam, p: usize) -> i16 {
        self.ram[cam.ram_index(self.s, p)] as i16
    }
}

/// The reference image: `None` where the pixel is not part of the subpage.
pub struct Image {
    pub t_a: Ev,
    pub px: Vec<Option<Want>>,
}

pub fn raw_image(cal: &Cal, shot: &Shot) -> (Ev, Vec<Option<Ev>>) {
    let cam = cal.cam;
    let x = shot.aux(cam);
    let c = common(cal, shot.rc, &x);
    let em = Ev::from(shot.emissivity);
    let s = shot.s;
    let p = pat(shot.ap);
    let cp = cal.tgc.map(|t| {
        t * v_ir(x.cp, c.gain, c.t_a, c.v_dd, em, cal.offset_cp[s], cal.kv_cp[s], cal.kta_cp[s], cal.comp_cp[s][p])
    });
    let px = (0..cam.pixels())
        .map(|i| {
            cam.member(s, shot.ap, i).then(|| {
                let v = v_ir(
                    shot.raw(cam, i),
                    c.gain,
                    c.t_a,
                    c.v_dd,
                    em,
                    cal.offset[s][i],
                    cal.kv[s][i],
                    cal.kta[s][i],
                    cal.comp[p][i],
                );
                match cp {
                    Some(cp) => v - cp,
                    None => v,
                }
            })
        })
        .collect();
    (c.t_a, px)
}

/// The per-image terms of the temperature conversion.
pub struct ToTemp {
    pub t_ar: Ev,
    pub coeff: Ev,
    pub alpha_cp: Option<Ev>,
    pub ks: Ev,
}

pub fn to_temp(cal: &Cal, s: usize, t_a: Ev, reflected: Option<f32>, emissivity: f32) -> ToTemp {
    let one = Ev::exact(1.0);
    let t_r = match reflected {
        Some(t) => Ev::from(t),
        None => t_a - Ev::exact(cal.cam.self_heating()),
    };
    ToTemp {
        t_ar: t_ar(t_a, t_r, emissivity),
        coeff: one + cal.k_s_ta * (t_a - Ev::exact(25.0)),
        alpha_cp: cal.tgc.map(|t| t * cal.alpha_cp[s]),
        ks: cal.ks_to[cal.cam.basic_range()],
    }
}

impl ToTemp {
    pub fn alpha(&self, alpha: Ev) -> Ev {
        (match self.alpha_cp {
            Some(cp) => alpha - cp,
            None => alpha,
        }) * self.coeff
    }
    pub fn pixel(&self, v: Ev, alpha: Ev) -> Want {
        temperature(v, self.alpha(alpha), self.t_ar, self.ks)
    }
}

pub fn image(cal: &Cal, shot: &Shot, temperatures: bool) -> Image {
    let (t_a, ir) = raw_image(cal, shot);
    let px = if temperatures {
        let t = to_temp(cal, shot.s, t_a, shot.reflected, shot.emissivity);
        ir.iter()
            .enumerate()
            .map(|(i, v)| v.map(|v| t.pixel(v, cal.alpha[shot.s][i])))
            .collect()
    } else {
        ir.into_iter().map(|v| v.map(Want::of)).collect()
    };
    Image { t_a, px }
}

/// Counts of a comparison.
#[derive(Default)]
pub struct Tally {
    pub decided: u64,
    pub undefined: u64,
    pub unknown: u64,
    pub untouched: u64,
}

/// Compare an image with the reference: subpage pixels have the reference value, the others keep
/// `before` bit for bit. `skip` are pixels whose calibration is unspecified (failed pixels).
pub fn compare(
    what: &str,
    want: &Image,
    before: &[f32],
    after: &[f32],
    skip: &[bool],
    tally: &mut Tally,
) -> Result<(), String> {
    for (i, w) in want.px.iter().enumerate() {
        match w {
            None => {
                if before[i].to_bits() != after[i].to_bits() {
                    return Err(format!(
                        "{what}: pixel {i} is not part of the subpage but changed from {:?} to {:?}",
                        before[i], after[i]
                    ));
                }
                tally.untouched += 1;
            }
            Some(_) if skip.get(i).copied().unwrap_or(false) => {}
            Some(w) => match w.agrees(after[i]) {
                None => tally.unknown += 1,
                Some(true) => {
                    if let Want::Undefined = w {
                        tally.undefined += 1
                    } else {
                        tally.decided += 1
                    }
                }
                Some(false) => {
                    return Err(format!("{what}: pixel {i} is {:?}, expected {}", after[i], show(w)));
                }
            },
        }
    }
    for i in want.px.len()..after.len() {
        if before[i].to_bits() != after[i].to_bits() {
            return Err(format!("{what}: element {i} past the image changed"));
        }
    }
    Ok(())
}

pub fn show(w: &Want) -> String {
    match w {
        Want::Is(e) => format!("{} (±{:.3e})", e.v, e.tol()),
        Want::Undefined => "a non-finite value".into(),
        Want::Unknown => "anything".into(),
    }
}

/// Compare one value; `Ok(false)` when the reference has no verdict.
pub fn same(what: &str, want: Ev, actual: f32) -> Result<bool, String> {
    match want.agrees(actual) {
        None => Ok(false),
        Some(true) => Ok(true),
        Some(false) => Err(format!("{what} is {actual:?}, expected {} (±{:.3e})", want.v, want.tol())),
    }
}
