//! Generated inputs: EEPROM images, frames and synthetic calibrations, and their generators.
use std::collections::BTreeMap;
use std::marker::PhantomData;

use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{AccessPattern, LibraryError, Resolution, Subpage};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::dump::{constants, K};
use crate::model::{Aux, Cal};
use crate::spec::*;

pub fn mixh(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x632BE59BD9B4E019);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// A long run of words: a constant, overlaid with noise, overlaid with individual values.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Words {
    pub base: u16,
    pub noise: Option<(u32, u16)>,
    pub set: BTreeMap<u16, u16>,
}

impl Words {
    pub fn constant(base: u16) -> Words {
        Words { base, noise: None, set: BTreeMap::new() }
    }
    pub fn at(&self, i: usize) -> u16 {
        if let Some(v) = self.set.get(&(i as u16)) {
            return *v;
        }
        match self.noise {
            None => self.base,
            Some((seed, mask)) => self.base ^ (mixh(u64::from(seed), i as u64) as u16 & mask),
        }
    }
}

pub fn words(n: usize, base: BoxedStrategy<u16>, masks: &'static [u16]) -> BoxedStrategy<Words> {
    let noise = prop_oneof![
        1 => Just(None).boxed(),
        4 => (any::<u32>(), proptest::sample::select(masks)).prop_map(Some).boxed(),
    ];
    let set = prop_oneof![
        3 => Just(BTreeMap::new()).boxed(),
        2 => proptest::collection::btree_map(0..n as u16, edge16(), 0..12).boxed(),
    ];
    (base, noise, set).prop_map(|(base, noise, set)| Words { base, noise, set }).boxed()
}

/// 16-bit words with extra weight on the edges.
pub fn edge16() -> BoxedStrategy<u16> {
    prop_oneof![
        3 => any::<u16>(),
        1 => proptest::sample::select(&[0u16, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x00FF, 0xFF00, 0x5555, 0xAAAA][..]),
        1 => (0u32..16).prop_map(|b| 1u16 << b),
    ]
    .boxed()
}

// ------------------------------------------------------------------ EEPROM images

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Eep {
    pub cam: Cam,
    /// Words 0x2400..0x2440. On the MLX90641 only the eleven data bits of checked words count.
    pub head: Vec<u16>,
    /// The remaining 768 words (eleven data bits each on the MLX90641).
    pub pix: Words,
}

/// MLX90641 header words that are not read by any documented constant.
pub fn unused_641(i: usize) -> bool {
    i < 0x10 || i == 0x13 || i == 0x14
}

impl Eep {
    /// The device's EEPROM words, brought inside the plausible domain (see `sanitize_*`).
    pub fn words(&self) -> Vec<u16> {
        self.sane(false)
    }
    /// As `words`, but inside the domain whatever the pixels' words are.
    pub fn words_for_any_pixels(&self) -> Vec<u16> {
        self.sane(true)
    }
    fn sane(&self, room: bool) -> Vec<u16> {
        let mut w: Vec<u16> = self.head.clone();
        w.resize(64, 0);
        w.extend((0..768).map(|i| self.pix.at(i)));
        match self.cam {
            Cam::M640 => sanitize_640(&mut w, room),
            Cam::M641 => {
                sanitize_641(&mut w, room);
                for (i, w) in w.iter_mut().enumerate() {
                    if !unused_641(i) {
                        *w = hamming(*w & 0x7FF);
                    }
                }
            }
        }
        w
    }
    pub fn bytes(&self) -> Vec<u8> {
        to_bytes(&self.words())
    }
}

pub fn to_bytes(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|w| w.to_be_bytes()).collect()
}

/// Keep the sums of the calibration blocks within 16 bits in any order of summation, and the
/// remainder shift of K_Ta within its word; the datasheet's arithmetic is undefined beyond that.
fn sanitize_640(w: &mut [u16], room: bool) {
    w[0x21] &= 0x7FFF;
    let most = |w: &[u16], low: u32, n: u32| match room {
        true => 1 << (n - 1),
        false => w[64..].iter().map(|w| sx(bits(*w, low, n), n).abs()).max().unwrap_or(0),
    };
    for (base, low) in [(0x10usize, 10), (0x20, 4)] {
        let remainder = most(w, low, 6);
        loop {
            let s = w[base];
            let (rs, cs, ms) = (bits(s, 8, 4), bits(s, 4, 4), bits(s, 0, 4));
            let mag = |words: &[u16]| {
                words
                    .iter()
                    .flat_map(|w| (0..4).map(move |k| sx(bits(*w, 4 * k, 4), 4).abs()))
                    .max()
                    .unwrap_or(0)
            };
            let row = mag(&w[base + 2..base + 8]) << rs;
            let col = mag(&w[base + 8..base + 16]) << cs;
            let rem = remainder << ms;
            let avg = sx(w[base + 1], 16).abs();
            if avg + row + col + rem <= 32767 {
                break;
            }
            if rs == 0 && cs == 0 && ms == 0 {
                let a = sx(w[base + 1], 16).clamp(-32700, 32700);
                w[base + 1] = a as i16 as u16;
            } else if row >= col && row >= rem && rs > 0 || cs == 0 && ms == 0 {
                w[base] -= 0x0100;
            } else if col >= rem && cs > 0 || ms == 0 {
                w[base] -= 0x0010;
            } else {
                w[base] -= 0x0001;
            }
        }
    }
    let remainder = most(w, 1, 3);
    while (remainder << bits(w[0x38], 0, 4)) + 128 > 32767 {
        w[0x38] -= 1;
    }
}

/// As `sanitize_640`; scale exponents stay in single-precision range, and the low halves of split
/// words use only the five bits they have.
fn sanitize_641(w: &mut [u16], room: bool) {
    for (i, w) in w.iter_mut().enumerate() {
        if !unused_641(i) {
            *w &= 0x7FF;
        }
    }
    for low in [0x12usize, 0x25, 0x29, 0x30] {
        w[low] &= 0x1F;
    }
    for scale in [0x2Eusize, 0x34] {
        w[scale] %= 61;
    }
    let mut s = bits(w[0x10], 5, 6) % 15;
    let avg = sx((w[0x11] << 5) | w[0x12], 16).abs();
    let largest = match room {
        true => 1024,
        false => w[64..256].iter().chain(&w[640..832]).map(|w| sx(*w, 11).abs()).max().unwrap_or(0),
    };
    while s > 0 && (largest << s) + avg > 32767 {
        s -= 1;
    }
    w[0x10] = (w[0x10] & 0x1F) | (s << 5);
    if (largest << s) + avg > 32767 {
        // avg close to the limits: keep it representable
        let a = sx((w[0x11] << 5) | w[0x12], 16).clamp(-31743, 31743) as u16;
        w[0x11] = a >> 5;
        w[0x12] = a & 0x1F;
    }
}

/// Any plausible image: every field free.
pub fn eep_wild(cam: Cam) -> BoxedStrategy<Eep> {
    let masks: &'static [u16] = &[0xFFFF, 0xFFFE, 0x000F, 0xFC00, 0x03F0, 0x07E0, 0x001F, 0x0001, 0x0FFF, 0xFC3F];
    (
        prop_oneof![
            4 => proptest::collection::vec(any::<u16>(), 64).boxed(),
            2 => proptest::collection::vec(edge16(), 64).boxed(),
            1 => proptest::collection::vec(Just(0u16), 64).boxed(),
        ],
        proptest::collection::btree_map(0usize..64, any::<u16>(), 0..4),
        words(768, edge16(), masks),
    )
        .prop_map(move |(mut head, over, pix)| {
            for (i, v) in over {
                head[i] = v;
            }
            Eep { cam, head, pix }
        })
        .boxed()
}

fn i6(v: i32) -> u16 {
    (v as u16) & 0x3F
}

/// Images like those of real devices, for which frame processing is well-conditioned.
pub fn eep_physical(cam: Cam) -> BoxedStrategy<Eep> {
    match cam {
        Cam::M640 => {
            let a = (
                -200i32..200,
                (0u16..16, 0u16..4, 0u16..4, 0u16..3),
                proptest::collection::vec(any::<u16>(), 6 + 8),
                3000u16..15000,
                (3u16..7, 0u16..6, 0u16..6, 0u16..6),
                proptest::collection::vec(any::<u16>(), 6 + 8),
                4000u16..9000,
                10000u16..14000,
                (-32i32..32, 250u16..450),
            );
            let b = (
                (-110i32..-80, 90u16..180),
                any::<u16>(),
                any::<u16>(),
                (any::<u16>(), any::<u16>()),
                (0u16..4, 2u16..9, 5u16..16, 0u16..4),
                (-32i32..32, 0u16..100),
                (any::<u16>(), any::<u16>()),
                (any::<u8>(), prop_oneof![1 => Just(0u8).boxed(), 4 => (-40i8..40).prop_map(|v| v as u8).boxed()]),
                (proptest::collection::vec(any::<u16>(), 2), 0u16..4, any::<u8>(), 8u16..16),
                proptest::collection::vec(any::<u16>(), 16),
            );
            (a, b, words(768, any::<u16>().boxed(), &[0xFFFF, 0xFFFE, 0x03F0, 0xFC0E]))
                .prop_map(move |(a, b, pix)| {
                    let mut head = b.9.clone();
                    let s = a.1;
                    head.push(s.0 << 12 | s.1 << 8 | s.2 << 4 | s.3);
                    head.push(a.0 as i16 as u16);
                    head.extend(&a.2);
                    let s = a.4;
                    head.push(s.0 << 12 | s.1 << 8 | s.2 << 4 | s.3);
                    head.push(a.3);
                    head.extend(&a.5);
                    head.push(a.6);
                    head.push(a.7);
                    head.push(i6(a.8 .0) << 10 | a.8 .1);
                    head.push(((b.0 .0 as u16) & 0xFF) << 8 | b.0 .1);
                    head.push(b.1);
                    head.push(b.2);
                    head.push(b.3 .0);
                    head.push(b.3 .1);
                    let s = b.4;
                    head.push(s.0 << 12 | s.1 << 8 | s.2 << 4 | s.3);
                    head.push(i6(b.5 .0) << 10 | b.5 .1);
                    head.push(b.6 .0);
                    head.push(b.6 .1);
                    head.push(u16::from(b.7 .0) << 8 | u16::from(b.7 .1));
                    head.extend(&b.8 .0);
                    head.push(b.8 .1 << 12 | u16::from(b.8 .2) << 4 | b.8 .3);
                    Eep { cam, head, pix }
                })
                .boxed()
        }
        Cam::M641 => {
            let m = 0x7FFu16;
            let a = (
                (0u16..3, -800i32..-200),
                (-512i32..512, 8u16..20, 0u16..4),
                (-512i32..512, 8u16..20, 0u16..4),
                proptest::collection::vec((12u16..16, 12u16..16), 3),
                proptest::collection::vec(1024u16..2048, 6),
                any::<u16>(),
                300u16..600,
                4000u32..12000,
            );
            let b = (
                (-430i32..-380, -110i32..-80),
                11000u32..13000,
                200i32..400,
                -40i32..40,
                1000u16..1400,
                (1000u16..2048, 38u16..45),
                (-800i32..0, any::<u16>(), any::<u16>()),
                (0u16..4, -128i32..128),
                (18u16..24, proptest::collection::vec(any::<u16>(), 11)),
                proptest::collection::vec(any::<u16>(), 16),
            );
            (a, b, words(768, any::<u16>().boxed(), &[0x7FF, 0x3FF, 0x07E0, 0x0]))
                .prop_map(move |(a, b, pix)| {
                    let lo = |v: i32| (v as u16) & m;
                    let wide = |v: i32| [(v as u16) >> 5, (v as u16) & 0x1F];
                    let mut h = b.9.clone();
                    h.push(a.0 .0 << 5);
                    h.extend(wide(a.0 .1));
                    h.extend([0x1234, 0x4321]);
                    h.push(lo(a.1 .0));
                    h.push(a.1 .1 << 5 | a.1 .2);
                    h.push(lo(a.2 .0));
                    h.push(a.2 .1 << 5 | a.2 .2);
                    h.extend(a.3.iter().map(|(x, y)| x << 5 | y));
                    h.extend(&a.4);
                    h.push(a.5 & m);
                    h.push(a.6);
                    h.extend(wide(a.7 as i32));
                    h.push(lo(b.0 .0));
                    h.push(lo(b.0 .1));
                    h.extend(wide(b.1 as i32));
                    h.push(lo(b.2));
                    h.push(lo(b.3));
                    h.push(b.4);
                    h.push(b.5 .0);
                    h.push(b.5 .1);
                    h.extend(wide(b.6 .0));
                    h.push(b.6 .1 & m | 0x0200);
                    h.push(b.6 .2 & m | 0x0100);
                    h.push(b.7 .0 << 9 | (b.7 .1 as u16) & 0x1FF);
                    h.push(b.8 .0);
                    h.extend(b.8 .1.iter().map(|v| v & m));
                    Eep { cam, head: h, pix }
                })
                .boxed()
        }
    }
}

pub fn any_cam() -> BoxedStrategy<Cam> {
    proptest::sample::select(&Cam::BOTH[..]).boxed()
}

pub fn eep_any() -> BoxedStrategy<Eep> {
    any_cam().prop_flat_map(|c| prop_oneof![eep_wild(c), eep_physical(c)]).boxed()
}

// ------------------------------------------------------------------ frames

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Frame {
    pub vbe: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: [i16; 2],
    /// Seed for the RAM words that carry nothing.
    pub other: u32,
    pub pix: Words,
}

impl Frame {
    pub fn ram(&self, cam: Cam) -> Vec<u16> {
        let mut r: Vec<u16> =
            (0..cam.ram_words()).map(|i| mixh(u64::from(self.other) << 20, i as u64) as u16).collect();
        for (i, w) in r.iter_mut().enumerate().take(cam.ram_pixel_words()) {
            *w = self.pix.at(i);
        }
        let mut put = |a: u16, v: i16| r[usize::from(a - RAM_BASE)] = v as u16;
        put(cam.a_vbe(), self.vbe);
        put(cam.a_ptat(), self.ptat);
        put(cam.a_vdd(), self.vdd);
        put(cam.a_gain(), self.gain);
        put(cam.a_cp(0), self.cp[0]);
        put(cam.a_cp(1), self.cp[1]);
        r
    }
    pub fn aux(&self, s: usize) -> Aux {
        Aux { vbe: self.vbe, ptat: self.ptat, vdd: self.vdd, gain: self.gain, cp: self.cp[s] }
    }
}

/// Elements of a destination beyond the image.
pub fn extra() -> BoxedStrategy<usize> {
    prop_oneof![
        30 => Just(0usize),
        10 => 1usize..40,
        1 => proptest::sample::select(vec![64usize, 192, 384, 576, 768, 1344, 3000]),
    ]
    .boxed()
}

/// Frames near a device's operating point.
pub fn frame_physical() -> BoxedStrategy<Frame> {
    (
        18000i16..21000,
        1500i16..1900,
        -13600i16..-12600,
        5000i16..8000,
        (-300i16..300, -300i16..300),
        any::<u32>(),
        words(768, (-300i16..600).prop_map(|v| v as u16).boxed(), &[0x00FF, 0x01FF, 0x007F, 0x000F]).prop_map(|mut w| {
            // individually chosen words may be anything; keep most of them moderate
            for v in w.set.values_mut() {
                if *v & 1 == 0 {
                    *v = ((*v as i16) / 32) as u16;
                }
            }
            w
        }),
    )
        .prop_map(|(vbe, ptat, vdd, gain, (c0, c1), other, pix)| Frame {
            vbe,
            ptat,
            vdd,
            gain,
            cp: [c0, c1],
            other,
            pix,
        })
        .boxed()
}

pub fn edge_i16() -> BoxedStrategy<i16> {
    edge16().prop_map(|v| v as i16).boxed()
}

pub fn frame_wild() -> BoxedStrategy<Frame> {
    (
        edge_i16(),
        edge_i16(),
        edge_i16(),
        prop_oneof![4 => edge_i16(), 1 => Just(0i16).boxed()],
        (edge_i16(), edge_i16()),
        any::<u32>(),
        words(768, edge16(), &[0xFFFF, 0xFF00, 0x8000, 0x00FF]),
    )
        .prop_map(|(vbe, ptat, vdd, gain, (c0, c1), other, pix)| Frame {
            vbe,
            ptat,
            vdd,
            gain,
            cp: [c0, c1],
            other,
            pix,
        })
        .boxed()
}

pub fn frame_any() -> BoxedStrategy<Frame> {
    prop_oneof![4 => frame_physical(), 1 => frame_wild()].boxed()
}

// ------------------------------------------------------------------ synthetic calibrations

/// `base`, spread by up to `spread` per element.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Noise {
    pub base: f32,
    pub spread: f32,
    pub seed: u32,
}

impl Noise {
    pub fn at(&self, i: usize) -> f32 {
        let u = (mixh(u64::from(self.seed) << 16, i as u64) >> 40) as f32 / (1u64 << 23) as f32 - 1.0;
        self.base + self.spread * u
    }
}

fn noise(lo: f32, hi: f32, spread: f32) -> BoxedStrategy<Noise> {
    (fl(lo, hi), prop_oneof![1 => Just(0f32), 4 => Just(spread)], any::<u32>())
        .prop_map(|(base, spread, seed)| Noise { base, spread, seed })
        .boxed()
}

/// Floats in a range: mostly on a lattice (so that values stay readable), some of full precision, and
/// some of the values code likes to treat specially.
pub fn fl(lo: f32, hi: f32) -> BoxedStrategy<f32> {
    let marks: Vec<f32> = [lo, hi, 0.0, 1.0, -1.0, 0.5, 5.0, 8.0, 20.0, 25.0, 100.0, 3.3]
        .into_iter()
        .filter(|v| lo <= *v && *v <= hi)
        .collect();
    prop_oneof![
        10 => (0u32..=4096).prop_map(move |k| lo + (hi - lo) * (k as f32 / 4096.0)),
        3 => any::<u32>().prop_map(move |k| lo + (hi - lo) * ((k >> 8) as f32 / 16777216.0)),
        2 => proptest::sample::select(marks),
    ]
    .boxed()
}

/// Floats of any kind, the peculiar ones often.
pub fn odd() -> BoxedStrategy<f32> {
    let peculiar = vec![
        0.0f32,
        -0.0,
        1.0,
        -1.0,
        f32::INFINITY,
        f32::NEG_INFINITY,
        f32::NAN,
        -f32::NAN,
        f32::MIN_POSITIVE,
        f32::from_bits(1),
        f32::MAX,
        f32::MIN,
        f32::EPSILON,
        -273.15,
        -300.0,
        25.0,
        1e10,
    ];
    prop_oneof![1 => proptest::sample::select(peculiar), 1 => any::<u32>().prop_map(f32::from_bits)].boxed()
}

/// A user-supplied calibration: every constant independent, per pixel and per subpage.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Syn {
    pub cam: Cam,
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub res: u8,
    pub v_dd_0: f32,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub ks_to: Noise,
    pub emissivity: Option<f32>,
    pub tgc: Option<f32>,
    pub offset: Noise,
    pub alpha: Noise,
    pub kv: Noise,
    pub kta: Noise,
    /// Compensation per pixel for [chess, interleave]; `None` for some pixels when present.
    pub comp: [Option<Noise>; 2],
    pub comp_cp: [[Option<f32>; 2]; 2],
    pub offset_cp: [i16; 2],
    pub alpha_cp: [f32; 2],
    pub kv_cp: [f32; 2],
    pub kta_cp: [f32; 2],
}

pub fn syn(cam: Cam) -> BoxedStrategy<Syn> {
    let opt = |s: BoxedStrategy<f32>| prop_oneof![1 => Just(None).boxed(), 3 => s.prop_map(Some).boxed()];
    let a = (
        -3500i16..-2500,
        -14000i16..-12000,
        0u8..4,
        prop_oneof![3 => Just(3.3f32).boxed(), 1 => fl(3.0, 3.6)],
        fl(-0.008, 0.008),
        fl(30.0, 55.0),
        fl(11000.0, 13000.0),
        fl(8.0, 12.0),
        fl(4000.0, 9000.0),
        fl(-0.004, 0.004),
        noise(-0.0012, 0.0004, 0.0008),
        opt(fl(0.3, 1.0)),
    );
    let b = (
        opt(fl(-1.0, 1.0)),
        noise(-300.0, 300.0, 120.0),
        noise(0.8e-7, 3e-7, 0.4e-7),
        noise(0.1, 0.5, 0.2),
        noise(0.001, 0.008, 0.002),
        [0, 1].map(|_| prop_oneof![1 => Just(None).boxed(), 2 => noise(-8.0, 8.0, 6.0).prop_map(Some).boxed()]),
        [0, 1].map(|_| [0, 1].map(|_| opt(fl(-4.0, 4.0)))),
        [0, 1].map(|_| -200i16..200),
        [0, 1].map(|_| fl(1e-9, 6e-9)),
        [0, 1].map(|_| fl(0.1, 0.6)),
        [0, 1].map(|_| fl(0.001, 0.01)),
    );
    (a, b)
        .prop_map(move |(a, b)| Syn {
            cam,
            k_v_dd: a.0,
            v_dd_25: a.1,
            res: a.2,
            v_dd_0: a.3,
            k_v_ptat: a.4,
            k_t_ptat: a.5,
            v_ptat_25: a.6,
            alpha_ptat: a.7,
            gain: a.8,
            k_s_ta: a.9,
            ks_to: a.10,
            emissivity: a.11,
            tgc: b.0,
            offset: b.1,
            alpha: b.2,
            kv: b.3,
            kta: b.4,
            comp: b.5,
            comp_cp: b.6,
            offset_cp: b.7,
            alpha_cp: b.8,
            kv_cp: b.9,
            kta_cp: b.10,
        })
        .boxed()
}

#[cfg(feature = "custom")]
pub use user::SynCal;
#[cfg(feature = "custom")]
mod user {
    use super::*;

    /// A pixel sequence of a user implementation: of unknown length, and in some
    /// implementations longer than the image (where the constants start over).
    #[derive(Clone, Debug)]
    pub struct Seq<'a, T> {
        v: &'a [T],
        i: usize,
        endless: bool,
    }
    impl<'a, T> Iterator for Seq<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            if self.endless && self.i == self.v.len() {
                self.i = 0;
            }
            let x = self.v.get(self.i);
            self.i += 1;
            x
        }
    }

    /// A user implementation of the calibration interface.
    #[derive(Clone, Debug)]
    pub struct SynCal<Cam> {
        pub s: Syn,
        ct: Vec<i16>,
        ks_to: Vec<f32>,
        corr: Vec<f32>,
        offset: [Vec<i16>; 2],
        alpha: [Vec<f32>; 2],
        kv: [Vec<f32>; 2],
        kta: [Vec<f32>; 2],
        comp: [Vec<Option<f32>>; 2],
        failed: Vec<usize>,
        outlier: Vec<usize>,
        endless: bool,
        _cam: PhantomData<Cam>,
    }

    impl<C> SynCal<C> {
        fn seq<'a, T>(&self, v: &'a [T]) -> Seq<'a, T> {
            Seq { v, i: 0, endless: self.endless }
        }

        pub fn new(s: &Syn) -> SynCal<C> {
            let n = s.cam.pixels();
            let arr = |z: &Noise, sub: usize| -> Vec<f32> { (0..n).map(|i| z.at(i + sub * 5000)).collect() };
            let both = |z: &Noise| [arr(z, 0), arr(z, 1)];
            let ranges = s.cam.ranges();
            let comp = |z: &Option<Noise>| -> Vec<Option<f32>> {
                (0..n)
                    .map(|i| {
                        z.as_ref().and_then(|z| {
                            (mixh(u64::from(z.seed), i as u64) % 5 != 0).then(|| z.at(i))
                        })
                    })
                    .collect()
            };
            SynCal {
                s: s.clone(),
                ct: (0..ranges).map(|i| i as i16 * 40 - 40).collect(),
                ks_to: (0..ranges).map(|i| s.ks_to.at(i)).collect(),
                corr: (0..ranges).map(|i| 1.0 + i as f32).collect(),
                offset: both(&s.offset).map(|v| v.into_iter().map(|f| f as i16).collect()),
                alpha: both(&s.alpha),
                kv: both(&s.kv),
                kta: both(&s.kta),
                comp: [comp(&s.comp[0]), comp(&s.comp[1])],
                // No image depends on these.
                failed: (0..n).filter(|i| mixh(u64::from(s.kv.seed), *i as u64) % 50 == 0).collect(),
                outlier: (0..n).filter(|i| mixh(u64::from(s.kta.seed), *i as u64) % 50 == 0).collect(),
                endless: s.alpha.seed % 4 == 0,
                _cam: PhantomData,
            }
        }

        /// An implementation that returns exactly what another one does.
        pub fn mirror<'a, K: CalibrationData<'a>>(cam: Cam, k: &'a K) -> SynCal<C> {
            let n = cam.pixels();
            let zero = Noise { base: 0.0, spread: 0.0, seed: 0 };
            let subs = [Subpage::Zero, Subpage::One];
            let aps = [AccessPattern::Chess, AccessPattern::Interleave];
            SynCal {
                s: Syn {
                    cam,
                    k_v_dd: k.k_v_dd(),
                    v_dd_25: k.v_dd_25(),
                    res: res_raw(k.resolution()) as u8,
                    v_dd_0: k.v_dd_0(),
                    k_v_ptat: k.k_v_ptat(),
                    k_t_ptat: k.k_t_ptat(),
                    v_ptat_25: k.v_ptat_25(),
                    alpha_ptat: k.alpha_ptat(),
                    gain: k.gain(),
                    k_s_ta: k.k_s_ta(),
                    ks_to: zero,
                    emissivity: k.emissivity(),
                    tgc: k.temperature_gradient_coefficient(),
                    offset: zero,
                    alpha: zero,
                    kv: zero,
                    kta: zero,
                    comp: [None, None],
                    comp_cp: subs.map(|s| aps.map(|a| k.access_pattern_compensation_cp(s, a))),
                    offset_cp: subs.map(|s| k.offset_reference_cp(s)),
                    alpha_cp: subs.map(|s| k.alpha_cp(s)),
                    kv_cp: subs.map(|s| k.k_v_cp(s)),
                    kta_cp: subs.map(|s| k.k_ta_cp(s)),
                },
                ct: k.corner_temperatures().to_vec(),
                ks_to: k.k_s_to().to_vec(),
                corr: k.alpha_correction().to_vec(),
                offset: subs.map(|s| k.offset_reference_pixels(s).take(n).copied().collect()),
                alpha: subs.map(|s| k.alpha_pixels(s).take(n).copied().collect()),
                kv: subs.map(|s| k.k_v_pixels(s).take(n).copied().collect()),
                kta: subs.map(|s| k.k_ta_pixels(s).take(n).copied().collect()),
                comp: aps.map(|a| k.access_pattern_compensation_pixels(a).take(n).map(|v| v.copied()).collect()),
                failed: k.failed_pixels().iter_flagged().take(n).collect(),
                outlier: k.outlier_pixels().iter_flagged().take(n).collect(),
                endless: k.k_v_dd() % 4 == 0,
                _cam: PhantomData,
            }
        }
    }

    #[derive(Clone, Debug)]
    pub struct Flags(pub Vec<usize>);
    impl FlaggedPixels for Flags {
        fn any(&self) -> bool {
            !self.0.is_empty()
        }
        type FlaggedIterator = std::vec::IntoIter<usize>;
        fn iter_flagged(&self) -> Self::FlaggedIterator {
            self.0.clone().into_iter()
        }
    }

    impl<'a, C: MelexisCamera + 'a> CalibrationData<'a> for SynCal<C> {
        type Camera = C;
        fn k_v_dd(&self) -> i16 {
            self.s.k_v_dd
        }
        fn v_dd_25(&self) -> i16 {
            self.s.v_dd_25
        }
        fn resolution(&self) -> Resolution {
            RESOLUTIONS[usize::from(self.s.res) % 4]
        }
        fn v_dd_0(&self) -> f32 {
            self.s.v_dd_0
        }
        fn k_v_ptat(&self) -> f32 {
            self.s.k_v_ptat
        }
        fn k_t_ptat(&self) -> f32 {
            self.s.k_t_ptat
        }
        fn v_ptat_25(&self) -> f32 {
            self.s.v_ptat_25
        }
        fn alpha_ptat(&self) -> f32 {
            self.s.alpha_ptat
        }
        fn gain(&self) -> f32 {
            self.s.gain
        }
        fn k_s_ta(&self) -> f32 {
            self.s.k_s_ta
        }
        fn corner_temperatures(&self) -> &[i16] {
            &self.ct
        }
        fn k_s_to(&self) -> &[f32] {
            &self.ks_to
        }
        fn alpha_correction(&self) -> &[f32] {
            &self.corr
        }
        fn emissivity(&self) -> Option<f32> {
            self.s.emissivity
        }
        type OffsetReferenceIterator = Seq<'a, i16>;
        fn offset_reference_pixels(&'a self, subpage: Subpage) -> Self::OffsetReferenceIterator {
            self.seq(&self.offset[sp_n(subpage)])
        }
        fn offset_reference_cp(&self, subpage: Subpage) -> i16 {
            self.s.offset_cp[sp_n(subpage)]
        }
        type AlphaIterator = Seq<'a, f32>;
        fn alpha_pixels(&'a self, subpage: Subpage) -> Self::AlphaIterator {
            self.seq(&self.alpha[sp_n(subpage)])
        }
        fn alpha_cp(&self, subpage: Subpage) -> f32 {
            self.s.alpha_cp[sp_n(subpage)]
        }
        type KvIterator = Seq<'a, f32>;
        fn k_v_pixels(&'a self, subpage: Subpage) -> Self::KvIterator {
            self.seq(&self.kv[sp_n(subpage)])
        }
        fn k_v_cp(&self, subpage: Subpage) -> f32 {
            self.s.kv_cp[sp_n(subpage)]
        }
        type KtaIterator = Seq<'a, f32>;
        fn k_ta_pixels(&'a self, subpage: Subpage) -> Self::KtaIterator {
            self.seq(&self.kta[sp_n(subpage)])
        }
        fn k_ta_cp(&self, subpage: Subpage) -> f32 {
            self.s.kta_cp[sp_n(subpage)]
        }
        fn temperature_gradient_coefficient(&self) -> Option<f32> {
            self.s.tgc
        }
        type AccessPatternCompensation =
            std::iter::Map<Seq<'a, Option<f32>>, fn(&'a Option<f32>) -> Option<&'a f32>>;
        fn access_pattern_compensation_pixels(&'a self, a: AccessPattern) -> Self::AccessPatternCompensation {
            self.seq(&self.comp[usize::from(!ap_bit(a))]).map(Option::as_ref)
        }
        fn access_pattern_compensation_cp(&self, subpage: Subpage, a: AccessPattern) -> Option<f32> {
            self.s.comp_cp[sp_n(subpage)][usize::from(!ap_bit(a))]
        }
        type FailedPixels = Flags;
        fn failed_pixels(&'a self) -> Flags {
            Flags(self.failed.clone())
        }
        type OutlierPixels = Flags;
        fn outlier_pixels(&'a self) -> Flags {
            Flags(self.outlier.clone())
        }
    }
}

// ------------------------------------------------------------------ any calibration

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CalCase {
    Eeprom(Eep),
    Custom(Syn),
}

#[derive(Clone)]
#[allow(clippy::large_enum_variant)]
pub enum AnyCal {
    E640(Box<Mlx90640Calibration>),
    E641(Box<Mlx90641Calibration>),
    #[cfg(feature = "custom")]
    S640(Box<SynCal<Mlx90640>>),
    #[cfg(feature = "custom")]
    S641(Box<SynCal<Mlx90641>>),
}

#[macro_export]
macro_rules! with_cal {
    ($cal:expr, $c:ident => $body:expr) => {
        match $cal {
            $crate::cases::AnyCal::E640($c) => $body,
            $crate::cases::AnyCal::E641($c) => $body,
            #[cfg(feature = "custom")]
            $crate::cases::AnyCal::S640($c) => $body,
            #[cfg(feature = "custom")]
            $crate::cases::AnyCal::S641($c) => $body,
        }
    };
}

impl CalCase {
    pub fn build(&self) -> Result<AnyCal, String> {
        match self {
            CalCase::Eeprom(e) => load(e.cam, &e.bytes()).map_err(|e| format!("plausible EEPROM refused: {e:?}")),
            #[cfg(not(feature = "custom"))]
            CalCase::Custom(s) => stand_in(s),
            #[cfg(feature = "custom")]
            CalCase::Custom(s) => Ok(match s.cam {
                Cam::M640 => AnyCal::S640(Box::new(SynCal::new(s))),
                Cam::M641 => AnyCal::S641(Box::new(SynCal::new(s))),
            }),
        }
    }
}

pub fn load(cam: Cam, bytes: &[u8]) -> Result<AnyCal, LibraryError> {
    Ok(match cam {
        Cam::M640 => AnyCal::E640(Box::new(Mlx90640Calibration::from_data(bytes)?)),
        Cam::M641 => AnyCal::E641(Box::new(Mlx90641Calibration::from_data(bytes)?)),
    })
}

/// One of a few calibrations of the library in place of a user's.
#[cfg(not(feature = "custom"))]
fn stand_in(s: &Syn) -> Result<AnyCal, String> {
    use proptest::strategy::ValueTree;
    static IMAGES: std::sync::OnceLock<Vec<Result<AnyCal, String>>> = std::sync::OnceLock::new();
    let all = IMAGES.get_or_init(|| {
        let mut runner = proptest::test_runner::TestRunner::deterministic();
        (0..64)
            .map(|i| {
                let cam = if i % 2 == 0 { Cam::M640 } else { Cam::M641 };
                let e = eep_physical(cam).new_tree(&mut runner).map_err(|e| e.to_string())?.current();
                CalCase::Eeprom(e).build()
            })
            .collect()
    });
    let k = mixh(u64::from(s.alpha.seed), s.k_v_dd as u64) as usize % 32 * 2;
    all[k + usize::from(s.cam == Cam::M641)].clone()
}

impl AnyCal {
    pub fn cam(&self) -> Cam {
        match self {
            AnyCal::E640(_) => Cam::M640,
            #[cfg(feature = "custom")]
            AnyCal::S640(_) => Cam::M640,
            _ => Cam::M641,
        }
    }
    #[cfg(not(feature = "custom"))]
    pub fn mirror(&self) -> AnyCal {
        self.clone()
    }
    /// The same constants behind a user implementation.
    #[cfg(feature = "custom")]
    pub fn mirror(&self) -> AnyCal {
        let cam = self.cam();
        with_cal!(self, c => match cam {
            Cam::M640 => AnyCal::S640(Box::new(SynCal::mirror(cam, &**c))),
            Cam::M641 => AnyCal::S641(Box::new(SynCal::mirror(cam, &**c))),
        })
    }
    pub fn reference(&self) -> Cal {
        let cam = self.cam();
        with_cal!(self, c => Cal::from_trait(cam, &**c))
    }
    /// Every value the calibration exposes, bit for bit.
    pub fn dump(&self) -> Vec<u64> {
        with_cal!(self, c => dump(&**c))
    }
}

pub fn dump<'a, C: CalibrationData<'a>>(c: &'a C) -> Vec<u64> {
    constants(c)
        .into_iter()
        .map(|k| match k {
            K::I(v) => u64::from(v),
            K::F(v) => 1 << 32 | u64::from(v.to_bits()),
            K::N => 2 << 32,
        })
        .collect()
}

/// Calibrations for which frame processing is meaningful.
pub fn cal_physical() -> BoxedStrategy<CalCase> {
    any_cam()
        .prop_flat_map(|c| {
            prop_oneof![
                2 => eep_physical(c).prop_map(CalCase::Eeprom).boxed(),
                2 => syn(c).prop_map(CalCase::Custom).boxed(),
            ]
        })
        .boxed()
}

pub fn cal_any() -> BoxedStrategy<CalCase> {
    any_cam()
        .prop_flat_map(|c| {
            prop_oneof![
                2 => eep_physical(c).prop_map(CalCase::Eeprom).boxed(),
                2 => syn(c).prop_map(CalCase::Custom).boxed(),
                1 => eep_wild(c).prop_map(CalCase::Eeprom).boxed(),
            ]
        })
        .boxed()
}

pub fn emissivity() -> BoxedStrategy<f32> {
    let near = vec![1.0 - f32::EPSILON / 2.0, 1.0 + f32::EPSILON, 0.999, 1.001, 0.95, 0.98];
    prop_oneof![
        4 => Just(1.0f32).boxed(),
        6 => fl(0.1, 1.0),
        2 => fl(0.9, 1.2),
        1 => proptest::sample::select(near).boxed(),
    ]
    .boxed()
}

pub fn reflected() -> BoxedStrategy<Option<f32>> {
    prop_oneof![2 => Just(None).boxed(), 3 => fl(-40.0, 200.0).prop_map(Some).boxed()].boxed()
}
