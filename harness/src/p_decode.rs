//! C01–C05, C07–C09: calibration loading.
use std::collections::{BTreeMap, BTreeSet};

use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::{AccessPattern, LibraryError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::engine::*;
use crate::ensure;
use crate::ev::Ev;
use crate::model::*;
use crate::spec::*;
use crate::with_cal;

fn cmp1(what: &str, want: Ev, got: Ev) -> Result<(), String> {
    same(what, want, got.v as f32).map(|_| ())
}

fn cmp_list(what: &str, want: &[Ev], got: &[Ev], skip: &[bool]) -> Result<(), String> {
    ensure!(want.len() == got.len(), "{what}: {} entries instead of {}", got.len(), want.len());
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if !skip.get(i).copied().unwrap_or(false) {
            same(&format!("{what}[{i}]"), *w, g.v as f32)?;
        }
    }
    Ok(())
}

fn cmp_opt(what: &str, want: Option<Ev>, got: Option<Ev>) -> Result<(), String> {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => cmp1(what, w, g),
        (w, g) => Err(format!("{what} is {:?}, expected {:?}", g.map(|g| g.v), w.map(|w| w.v))),
    }
}

/// Every constant but the flags and the interleave compensation (they have their own properties).
pub fn compare_cal(want: &Cal, got: &Cal) -> Result<(), String> {
    macro_rules! int {
        ($($f:ident),*) => { $( ensure!(want.$f == got.$f, concat!(stringify!($f), " is {:?}, expected {:?}"), got.$f, want.$f); )* };
    }
    macro_rules! ev {
        ($($f:ident),*) => { $( cmp1(stringify!($f), want.$f, got.$f)?; )* };
    }
    int!(k_v_dd, v_dd_25, res, v_dd_0, ct, offset_cp);
    ev!(k_v_ptat, k_t_ptat, v_ptat_25, alpha_ptat, gain, k_s_ta);
    cmp_list("k_s_to", &want.ks_to, &got.ks_to, &[])?;
    cmp_opt("emissivity", want.emissivity, got.emissivity)?;
    cmp_opt("temperature gradient coefficient", want.tgc, got.tgc)?;
    for s in 0..2 {
        cmp1(&format!("alpha_cp (subpage {s})"), want.alpha_cp[s], got.alpha_cp[s])?;
        cmp1(&format!("k_v_cp (subpage {s})"), want.kv_cp[s], got.kv_cp[s])?;
        cmp1(&format!("k_ta_cp (subpage {s})"), want.kta_cp[s], got.kta_cp[s])?;
        ensure!(
            want.offset[s].len() == got.offset[s].len(),
            "offset (subpage {s}): {} entries instead of {}",
            got.offset[s].len(),
            want.offset[s].len()
        );
        for (i, (w, g)) in want.offset[s].iter().zip(&got.offset[s]).enumerate() {
            ensure!(want.failed[i] || w == g, "offset (subpage {s})[{i}] is {g}, expected {w}");
        }
        cmp_list(&format!("alpha (subpage {s})"), &want.alpha[s], &got.alpha[s], &want.failed)?;
        cmp_list(&format!("k_v (subpage {s})"), &want.kv[s], &got.kv[s], &want.failed)?;
        cmp_list(&format!("k_ta (subpage {s})"), &want.kta[s], &got.kta[s], &want.failed)?;
    }
    Ok(())
}

fn decode_case(e: &Eep, cx: &mut Cx) -> Verdict {
    let w = e.words();
    let want = Cal::from_eeprom(e.cam, &w);
    let got = load(e.cam, &to_bytes(&w)).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?.reference();
    if w[0x40..].iter().any(|v| *v != w[0x40]) || w[0x10..0x40].iter().any(|v| *v != 0) {
        cx.nontrivial();
    }
    if want.tgc.is_none() {
        cx.hit("no_gradient_compensation");
    }
    cx.add("failed_pixels", want.failed.iter().filter(|f| **f).count() as u64);
    compare_cal(&want, &got)
}

fn eep_of(cam: Cam) -> BoxedStrategy<Eep> {
    prop_oneof![3 => eep_wild(cam), 2 => eep_physical(cam)].boxed()
}

/// One header field disturbed at a time: everything else as in a base image.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unused {
    eep: Eep,
    /// New contents of the words that carry no calibration constant.
    ids: Vec<u16>,
}

fn unused_case(c: &Unused, cx: &mut Cx) -> Verdict {
    let w = c.eep.words();
    let mut v = w.clone();
    let mut spots: Vec<usize> = (0..16).collect();
    if c.eep.cam == Cam::M641 {
        spots.extend([0x13, 0x14]);
    }
    for (k, i) in spots.iter().enumerate() {
        v[*i] = c.ids[k % c.ids.len()];
    }
    if v != w {
        cx.nontrivial();
    }
    let a = load(c.eep.cam, &to_bytes(&w)).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    let b = load(c.eep.cam, &to_bytes(&v))
        .map_err(|e| format!("refused because of words that carry no calibration constant: {e:?}"))?;
    ensure!(a.dump() == b.dump(), "words that carry no calibration constant change the result");
    Ok(())
}

fn unused_strat(cam: Cam) -> BoxedStrategy<Unused> {
    (eep_of(cam), proptest::collection::vec(edge16(), 18))
        .prop_map(|(eep, ids)| Unused { eep, ids })
        .boxed()
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        assumptions: vec![
            "images whose 16-bit block sums overflow, and reference sensitivities above 0x7FFF, are outside the domain",
            "the constants of failed pixels (all-zero words) are not compared",
        ],
        families: vec![
            Box::new(Gen::<Eep> {
                name: "decode",
                rule: "the pixel block is not constant or some header word is non-zero",
                quick: 64_000,
                thorough: 2_800_000,
                strat: |_| eep_of(Cam::M640),
                test: decode_case,
            }),
            Box::new(Gen::<Unused> {
                name: "unused_words",
                rule: "the words without a calibration constant really differ",
                quick: 16_000,
                thorough: 400_000,
                strat: |_| unused_strat(Cam::M640),
                test: unused_case,
            }),
        ],
    }
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        assumptions: vec![
            "images whose 16-bit offset sums overflow or whose scale exponents leave single-precision range are outside the domain",
            "the low halves of split words only use their five documented bits",
            "the constants of failed pixels are not compared",
        ],
        families: vec![
            Box::new(Gen::<Eep> {
                name: "decode",
                rule: "the pixel block is not constant or some header word is non-zero",
                quick: 64_000,
                thorough: 3_600_000,
                strat: |_| eep_of(Cam::M641),
                test: decode_case,
            }),
            Box::new(Gen::<Unused> {
                name: "unused_words",
                rule: "the words without a calibration constant really differ",
                quick: 16_000,
                thorough: 400_000,
                strat: |_| unused_strat(Cam::M641),
                test: unused_case,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C03

fn code_word(i: u64, cx: &mut Cx) -> Verdict {
    let data = i as u16;
    cx.nontrivial();
    let code = hamming(data);
    let r = add_checksum(data);
    ensure!(r == Ok(code), "encoding {data:#06x} gives {r:?}, expected {code:#06x}");
    let r = validate_checksum(code);
    ensure!(r == Ok(data), "decoding the code word {code:#06x} gives {r:?}, expected {data:#06x}");
    for a in 0..16 {
        let w = code ^ (1 << a);
        let r = validate_checksum(w);
        ensure!(r == Ok(data), "{data:#06x} with bit {a} flipped ({w:#06x}) decodes to {r:?}");
        cx.hit("single_errors");
        for b in 0..a {
            let w = w ^ (1 << b);
            let r = validate_checksum(w);
            ensure!(
                r == Err(LibraryError::Checksum(w)),
                "{data:#06x} with bits {b} and {a} flipped ({w:#06x}) decodes to {r:?}"
            );
            cx.hit("double_errors");
        }
    }
    Ok(())
}

fn wide(i: u64, cx: &mut Cx) -> Verdict {
    let v = 0x0800 + i as u16;
    cx.nontrivial();
    let r = add_checksum(v);
    ensure!(r.is_err(), "encoding {v:#06x}, which is wider than 11 bits, gives {r:?}");
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        assumptions: vec!["the parity table is the one documented in the MLX90641 datasheet and the module documentation"],
        families: vec![
            Box::new(All {
                name: "code_words",
                rule: "every data value, with every single and double bit flip of its code word",
                total: |_| 2048,
                complete: |_| true,
                test: code_word,
            }),
            Box::new(All {
                name: "too_wide",
                rule: "every value wider than eleven bits",
                total: |_| 65536 - 2048,
                complete: |_| true,
                test: wide,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    eep: Eep,
    /// Flip one bit in about `1/density` of the words.
    spread: Option<(u32, u8)>,
    /// Single flips: word -> bit
    single: BTreeMap<u16, u8>,
    /// Double flips: word -> (bit, distance to the other)
    double: BTreeMap<u16, (u8, u8)>,
}

fn damage_case(c: &Damage, cx: &mut Cx) -> Verdict {
    let w = c.eep.words();
    let mut d = w.clone();
    let mut flips: BTreeMap<usize, u16> = BTreeMap::new();
    if let Some((seed, density)) = c.spread {
        for i in 0..EEPROM_WORDS {
            let h = mixh(u64::from(seed), i as u64);
            if h % u64::from(density.max(1)) == 0 {
                flips.insert(i, 1 << ((h >> 32) % 16));
            }
        }
    }
    for (i, b) in &c.single {
        flips.insert(usize::from(*i), 1 << (b % 16));
    }
    for (i, (b, o)) in &c.double {
        let other = (b % 16 + 1 + o % 15) % 16;
        flips.insert(usize::from(*i), 1 << (b % 16) | 1 << other);
    }
    let mut doubles = BTreeSet::new();
    for (i, m) in flips {
        if unused_641(i) || i >= EEPROM_WORDS {
            continue;
        }
        d[i] ^= m;
        if m.count_ones() == 2 {
            doubles.insert(d[i]);
            cx.hit("words_with_two_flips");
        } else {
            cx.hit("words_with_one_flip");
        }
    }
    if d != w {
        cx.nontrivial();
    }
    let damaged = load(Cam::M641, &to_bytes(&d));
    if doubles.is_empty() {
        let good = load(Cam::M641, &to_bytes(&w)).map_err(|e| format!("undamaged EEPROM refused: {e:?}"))?;
        let damaged = damaged.map_err(|e| format!("EEPROM with only single-bit errors refused: {e:?}"))?;
        ensure!(good.dump() == damaged.dump(), "single-bit errors changed the calibration");
        cx.hit("corrected_images");
    } else {
        match damaged {
            Ok(_) => return Err("a calibration was produced from an EEPROM with an uncorrectable word".into()),
            Err(LibraryError::Checksum(x)) => {
                ensure!(doubles.contains(&x), "the checksum error names {x:#06x}, damaged words are {doubles:x?}")
            }
            Err(e) => return Err(format!("expected a checksum error, got {e:?}")),
        }
        cx.hit("refused_images");
    }
    Ok(())
}

pub fn c04() -> Property {
    fn strat(doubles: bool) -> BoxedStrategy<Damage> {
        let idx = || prop_oneof![1 => 16u16..64, 2 => 64u16..832].boxed();
        (
            eep_of(Cam::M641),
            prop_oneof![
                2 => Just(None).boxed(),
                2 => (any::<u32>(), proptest::sample::select(&[1u8, 2, 10, 60][..])).prop_map(Some).boxed()
            ],
            proptest::collection::btree_map(idx(), 0u8..16, 0..8),
            if doubles {
                proptest::collection::btree_map(idx(), (0u8..16, 0u8..15), 1..4).boxed()
            } else {
                Just(BTreeMap::new()).boxed()
            },
        )
            .prop_map(|(eep, spread, single, double)| Damage { eep, spread, single, double })
            .boxed()
    }
    /// Every bit and pair of bits of every checked word, one image each.
    fn each(i: u64, cx: &mut Cx) -> Verdict {
        let per = 16 + 120;
        let word = 16 + (i / per) as u16;
        let k = i % per;
        let eep = Eep {
            cam: Cam::M641,
            head: (0..64).map(|i| mixh(0x0641, i) as u16).collect(),
            pix: Words { base: 0, noise: Some((77, 0x7FF)), set: BTreeMap::new() },
        };
        let mut c = Damage { eep, spread: None, single: BTreeMap::new(), double: BTreeMap::new() };
        if k < 16 {
            c.single.insert(word, k as u8);
        } else {
            let mut n = k - 16;
            let mut a = 1;
            while n >= a {
                n -= a;
                a += 1;
            }
            // bits n < a
            c.double.insert(word, (n as u8, (a - n - 1) as u8));
        }
        damage_case(&c, cx)
    }
    Property {
        id: "C04",
        assumptions: vec!["the words 0x2400-0x240F, 0x2413 and 0x2414 carry no calibration data and may hold anything"],
        families: vec![
            Box::new(Gen::<Damage> {
                name: "single",
                rule: "at least one checked word has a flipped bit",
                quick: 32_000,
                thorough: 1_200_000,
                strat: |_| strat(false),
                test: damage_case,
            }),
            Box::new(Gen::<Damage> {
                name: "double",
                rule: "at least one checked word has a flipped bit",
                quick: 48_000,
                thorough: 1_600_000,
                strat: |_| strat(true),
                test: damage_case,
            }),
            Box::new(All {
                name: "each_bit_and_pair",
                rule: "every one- and two-bit error of every checked word of one image (words without calibration data are trivial)",
                total: |_| 816 * 136,
                complete: |_| true,
                test: each,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Buf {
    cam: Cam,
    /// A well-formed image to start from, or raw words.
    eep: Option<Eep>,
    raw: Words,
    len: usize,
    tail: Vec<u8>,
    /// How often the tail is repeated.
    times: u32,
}

impl Buf {
    fn tail(&self) -> Vec<u8> {
        self.tail.repeat(self.times as usize)
    }
}

impl Buf {
    fn full(&self) -> Vec<u8> {
        match &self.eep {
            Some(e) => e.bytes(),
            None => to_bytes(&(0..EEPROM_WORDS).map(|i| self.raw.at(i)).collect::<Vec<_>>()),
        }
    }
}

fn outcome(cam: Cam, b: &[u8]) -> Result<Result<Vec<u64>, LibraryError>, String> {
    let r = no_panic("loading", || load(cam, b))?;
    match r {
        Ok(c) => Ok(Ok(no_panic("reading the loaded calibration", || c.dump())?)),
        Err(e) => Ok(Err(e)),
    }
}

fn short_case(c: &Buf, cx: &mut Cx) -> Verdict {
    let mut b = c.full();
    b.truncate(c.len);
    if !b.is_empty() {
        cx.nontrivial();
    }
    let r = outcome(c.cam, &b).map_err(|m| format!("{m} ({} bytes)", b.len()))?;
    ensure!(r.is_err(), "a buffer of {} of {EEPROM_BYTES} bytes was accepted", b.len());
    Ok(())
}

fn long_case(c: &Buf, cx: &mut Cx) -> Verdict {
    let b = c.full();
    let mut l = b.clone();
    l.extend(c.tail());
    let extra = l.len() - b.len();
    if extra > 0 {
        cx.nontrivial();
    }
    let (x, y) = (outcome(c.cam, &b)?, outcome(c.cam, &l)?);
    cx.hit(if x.is_ok() { "accepted" } else { "refused" });
    ensure!(x == y, "{extra} extra bytes change the result");
    Ok(())
}

fn any_case(c: &Buf, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let r = outcome(c.cam, &c.full())?;
    cx.hit(if r.is_ok() { "accepted" } else { "refused" });
    Ok(())
}

pub fn c05() -> Property {
    fn eep() -> BoxedStrategy<(Cam, Option<Eep>, Words)> {
        prop_oneof![
            2 => eep_any().prop_map(|e| (e.cam, Some(e), Words::constant(0))).boxed(),
            3 => (any_cam(), words(EEPROM_WORDS, edge16(), &[0xFFFF, 0x7FF, 0xF000, 0x00FF]))
                .prop_map(|(c, w)| (c, None, w)).boxed(),
        ]
        .boxed()
    }
    Property {
        id: "C05",
        assumptions: vec!["evaluated in a build without overflow checks (the checked build is exempt by the crate's own documentation)"],
        families: vec![
            Box::new(Gen::<Buf> {
                name: "short",
                rule: "the buffer is not empty",
                quick: 64_000,
                thorough: 2_400_000,
                strat: |_| {
                    let len = prop_oneof![
                        3 => 0usize..EEPROM_BYTES,
                        1 => EEPROM_BYTES - 8..EEPROM_BYTES,
                        1 => EEPROM_WORDS - 8..EEPROM_WORDS + 8,
                        1 => 0usize..200,
                    ];
                    (eep(), len)
                        .prop_map(|((cam, eep, raw), len)| Buf { cam, eep, raw, len, tail: vec![], times: 0 })
                        .boxed()
                },
                test: short_case,
            }),
            Box::new(All {
                name: "every_length",
                rule: "every length below the full one, for both cameras",
                total: |_| 2 * EEPROM_BYTES as u64,
                complete: |_| true,
                test: |i, cx| {
                    let cam = Cam::BOTH[(i % 2) as usize];
                    let raw = Words { base: 0, noise: Some((5, 0x7FF)), set: BTreeMap::new() };
                    let head: Vec<u16> = (0..64).map(|i| mixh(3, i) as u16).collect();
                    let eep = Some(Eep { cam, head, pix: raw.clone() });
                    short_case(&Buf { cam, eep, raw, len: (i / 2) as usize, tail: vec![], times: 0 }, cx)
                },
            }),
            Box::new(Gen::<Buf> {
                name: "long",
                rule: "at least one extra byte",
                quick: 32_000,
                thorough: 1_200_000,
                strat: |_| {
                    let tail = prop_oneof![
                        24 => (proptest::collection::vec(any::<u8>(), 0..40), Just(1u32)).boxed(),
                        8 => (proptest::collection::vec(any::<u8>(), 0..2000), Just(1u32)).boxed(),
                        // sizes around the limits of 15 and 16 bits, of whole images, and far beyond
                        1 => (
                            proptest::collection::vec(any::<u8>(), 1..3),
                            prop_oneof![
                                4 => proptest::sample::select(vec![832u32, 1664, 31_104, 32_768, 63_872, 65_536, 131_072]),
                                1 => 0u32..3,
                            ],
                            0u32..5,
                        ).prop_map(|(t, n, d)| (t, (n + d).saturating_sub(2))).boxed(),
                    ];
                    (eep(), tail)
                        .prop_map(|((cam, eep, raw), (tail, times))| Buf { cam, eep, raw, len: EEPROM_BYTES, tail, times })
                        .boxed()
                },
                test: long_case,
            }),
            Box::new(Gen::<Buf> {
                name: "any_content",
                rule: "always (arbitrary words)",
                quick: 80_000,
                thorough: 3_200_000,
                strat: |_| {
                    prop_oneof![
                        1 => (any_cam(), words(EEPROM_WORDS, edge16(), &[0xFFFF, 0x7FF, 0xF000, 0x00FF]))
                            .prop_map(|(cam, raw)| Buf { cam, eep: None, raw, len: EEPROM_BYTES, tail: vec![], times: 0 }).boxed(),
                        // valid checksums over arbitrary data, so that decoding goes all the way
                        1 => (words(EEPROM_WORDS, edge16(), &[0xFFFF, 0x7FF, 0x07E0, 0x001F])).prop_map(|mut raw| {
                            let all: BTreeMap<u16, u16> =
                                (0..EEPROM_WORDS).map(|i| (i as u16, hamming(raw.at(i) & 0x7FF))).collect();
                            raw.set = all;
                            Buf { cam: Cam::M641, eep: None, raw, len: EEPROM_BYTES, tail: vec![], times: 0 }
                        }).boxed(),
                    ]
                    .boxed()
                },
                test: any_case,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flagged {
    eep: Eep,
    failed: BTreeSet<u16>,
    /// MLX90640: outlier bit set; MLX90641: all but one of the pixel's words zero.
    marked: BTreeMap<u16, u16>,
}

fn flag_words(c: &Flagged, base: &[u16], with_flags: bool) -> Vec<u16> {
    let mut w = base.to_vec();
    match c.eep.cam {
        Cam::M640 => {
            // a base image without any flag
            for v in &mut w[0x40..] {
                *v &= !1;
                if *v == 0 {
                    *v = 2;
                }
            }
            if with_flags {
                for (p, v) in &c.marked {
                    w[0x40 + usize::from(*p) % 768] = (w[0x40 + usize::from(*p) % 768] & !0xE) | (v & 0xE) | 1;
                }
                for p in &c.failed {
                    w[0x40 + usize::from(*p) % 768] = 0;
                }
            }
        }
        Cam::M641 => {
            let at = |p: usize, b: usize| 0x40 + 192 * b + p % 192;
            for p in 0..192 {
                if (0..4).all(|b| w[at(p, b)] == 0) {
                    w[at(p, 1)] = hamming(1);
                }
            }
            if with_flags {
                for (p, v) in &c.marked {
                    let keep = usize::from(*v % 4);
                    let data = (v >> 2) & 0x7FF;
                    for b in 0..4 {
                        w[at(usize::from(*p), b)] = hamming(if b == keep { data.max(1) } else { 0 });
                    }
                }
                for p in &c.failed {
                    for b in 0..4 {
                        w[at(usize::from(*p), b)] = 0;
                    }
                }
            }
        }
    }
    w
}

fn flags_of<F: FlaggedPixels>(what: &str, f: F, want: &[bool]) -> Result<u64, String> {
    let got: Vec<usize> = f.iter_flagged().take(4 * want.len()).collect();
    let expect: Vec<usize> = (0..want.len()).filter(|i| want[*i]).collect();
    ensure!(got == expect, "{what} pixels are {got:?}, expected {expect:?}");
    ensure!(f.any() == !expect.is_empty(), "{what}: any() is {} with {} flagged", f.any(), expect.len());
    Ok(expect.len() as u64)
}

fn flag_case(c: &Flagged, cx: &mut Cx) -> Verdict {
    let cam = c.eep.cam;
    let base = c.eep.words_for_any_pixels();
    let w = flag_words(c, &base, true);
    let want = Cal::from_eeprom(cam, &w);
    let cal = load(cam, &to_bytes(&w)).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    let (f, o) = with_cal!(&cal, k => (
        flags_of("failed", k.failed_pixels(), &want.failed)?,
        flags_of("outlier", k.outlier_pixels(), &want.outlier)?
    ));
    cx.add("failed_pixels", f);
    cx.add("outlier_pixels", o);
    if f + o > 0 {
        cx.nontrivial();
    } else {
        cx.hit("images_without_flags");
    }
    // Pixels that are not involved keep their constants.
    let clean = load(cam, &to_bytes(&flag_words(c, &base, false))).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    let (a, b) = (cal.reference(), clean.reference());
    let n = cam.pixels();
    let involved: BTreeSet<usize> =
        c.failed.iter().chain(c.marked.keys()).map(|p| usize::from(*p) % n).collect();
    for p in (0..n).filter(|p| !involved.contains(p)) {
        for s in 0..2 {
            ensure!(
                a.offset[s].get(p) == b.offset[s].get(p)
                    && a.alpha[s].get(p).map(|e| e.v.to_bits()) == b.alpha[s].get(p).map(|e| e.v.to_bits())
                    && a.kv[s].get(p).map(|e| e.v.to_bits()) == b.kv[s].get(p).map(|e| e.v.to_bits())
                    && a.kta[s].get(p).map(|e| e.v.to_bits()) == b.kta[s].get(p).map(|e| e.v.to_bits()),
                "flagging pixels {involved:?} changes the constants of pixel {p}"
            );
        }
    }
    Ok(())
}

/// Any bit slice is a flag set.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    bits: Vec<bool>,
    start: usize,
    end: usize,
}

fn bits_case(c: &Bits, cx: &mut Cx) -> Verdict {
    use bitvec::prelude::*;
    let (a, b) = (c.start.min(c.end).min(c.bits.len()), c.start.max(c.end).min(c.bits.len()));
    let want = &c.bits[a..b];
    let mut n = 0;
    macro_rules! of {
        ($($t:ty, $o:ty;)*) => {$(
            let v: BitVec<$t, $o> = c.bits.iter().collect();
            n += flags_of(stringify!($t, $o), &v[a..b], want)?;
        )*};
    }
    of! { u8, Lsb0; u8, Msb0; u16, Lsb0; u16, Msb0; u32, Lsb0; u32, Msb0; usize, Lsb0; usize, Msb0; }
    if n > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn some_bits() -> BoxedStrategy<Bits> {
    let bits = prop_oneof![
        1 => proptest::collection::vec(Just(false), 0..800).boxed(),
        3 => proptest::collection::vec(proptest::bool::weighted(0.02), 0..800).boxed(),
        1 => proptest::collection::vec(any::<bool>(), 0..800).boxed(),
        1 => proptest::collection::vec(Just(true), 0..800).boxed(),
    ];
    (bits, prop_oneof![1 => Just(0usize), 1 => 0usize..800], prop_oneof![1 => Just(800usize), 1 => 0usize..800])
        .prop_map(|(bits, start, end)| Bits { bits, start, end })
        .boxed()
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        assumptions: vec![],
        families: vec![Box::new(Gen::<Flagged> {
            name: "flags",
            rule: "at least one pixel is flagged",
            quick: 48_000,
            thorough: 2_000_000,
            strat: |_| {
                let pix = || prop_oneof![
                    6 => 0u16..768,
                    1 => proptest::sample::select(&[0u16, 1, 15, 16, 31, 32, 63, 64, 127, 128, 191, 192, 255, 256, 511, 512, 767][..])
                ].boxed();
                (
                    any_cam().prop_flat_map(eep_of),
                    prop_oneof![
                        1 => Just(BTreeSet::new()).boxed(),
                        4 => proptest::collection::btree_set(pix(), 0..6).boxed(),
                        1 => proptest::collection::btree_set(pix(), 0..400).boxed(),
                    ],
                    prop_oneof![
                        1 => Just(BTreeMap::new()).boxed(),
                        4 => proptest::collection::btree_map(pix(), any::<u16>(), 0..6).boxed(),
                        1 => proptest::collection::btree_map(pix(), any::<u16>(), 0..400).boxed(),
                    ],
                )
                    .prop_map(|(eep, failed, marked)| Flagged { eep, failed, marked })
                    .boxed()
            },
            test: flag_case,
        }),
        Box::new(Gen::<Bits> {
            name: "bit_slices",
            rule: "at least one bit is set",
            quick: 16_000,
            thorough: 400_000,
            strat: |_| some_bits(),
            test: bits_case,
        })],
    }
}

// ------------------------------------------------------------------ C08

fn chain_case(e: &Eep, cx: &mut Cx) -> Verdict {
    let cam = e.cam;
    let cal = load(cam, &e.bytes()).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    with_cal!(&cal, c => {
        let (ct, ks, corr) = (c.corner_temperatures(), c.k_s_to(), c.alpha_correction());
        ensure!(
            ct.len() == cam.ranges() && ks.len() == cam.ranges() && corr.len() == cam.ranges(),
            "{} corner temperatures, {} slopes, {} corrections instead of {} each",
            ct.len(), ks.len(), corr.len(), cam.ranges()
        );
        let basic = basic_range_of(&**c);
        ensure!(basic == cam.basic_range(), "the basic range is {basic}, expected {}", cam.basic_range());
        ensure!(corr[basic] == 1.0, "the correction of the basic range is {}", corr[basic]);
        let ct: Vec<i32> = ct.iter().map(|v| i32::from(*v)).collect();
        let ks: Vec<Ev> = ks.iter().map(|v| Ev::from(*v)).collect();
        let want = alpha_corrections(basic, &ct, &ks);
        for (i, w) in want.iter().enumerate() {
            if same(&format!("alpha_correction[{i}]"), *w, corr[i])? {
                if i != basic && w.v != 1.0 {
                    cx.nontrivial();
                    cx.hit("corrections");
                }
            } else {
                cx.hit("ill_conditioned");
            }
        }
    });
    Ok(())
}

fn basic_range_of<'a, C: CalibrationData<'a>>(_: &C) -> usize {
    <C::Camera as MelexisCamera>::BASIC_TEMPERATURE_RANGE
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        assumptions: vec!["corrections too close to a division by zero are not compared"],
        families: vec![Box::new(Gen::<Eep> {
            name: "chain",
            rule: "some correction outside the basic range differs from 1",
            quick: 80_000,
            thorough: 3_600_000,
            strat: |_| {
                (eep_any(), any::<bool>(), proptest::collection::vec(edge16(), 14))
                    .prop_map(|(mut e, small, v)| {
                        // only the words that matter here vary; the pixel block is irrelevant
                        e.pix = Words::constant(0x0210);
                        if !small {
                            for (i, v) in v.iter().enumerate() {
                                e.head[0x32 + i] = *v;
                            }
                        }
                        e
                    })
                    .boxed()
            },
            test: chain_case,
        })],
    }
}

// ------------------------------------------------------------------ C09

fn comp_check(cam: Cam, w: &[u16], cx: &mut Cx) -> Verdict {
    let want = Cal::from_eeprom(cam, w);
    let cal = load(cam, &to_bytes(w)).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    let got = cal.reference();
    let n = cam.pixels();
    for (k, name) in ["chess", "interleave"].iter().enumerate() {
        ensure!(got.comp[k].len() == n, "{name}: {} compensation entries for {n} pixels", got.comp[k].len());
        for i in 0..n {
            // No compensation and a compensation of zero are the same thing.
            let w = want.comp[k][i].unwrap_or(Ev::exact(0.0));
            let g = got.comp[k][i].unwrap_or(Ev::exact(0.0));
            same(&format!("{name} compensation of pixel {i}"), w, g.v as f32)?;
            if w.v != 0.0 {
                cx.nontrivial();
            }
        }
        for s in 0..2 {
            let w = want.comp_cp[s][k].unwrap_or(Ev::exact(0.0));
            let g = got.comp_cp[s][k].unwrap_or(Ev::exact(0.0));
            same(&format!("{name} compensation of the compensation pixel of subpage {s}"), w, g.v as f32)?;
        }
    }
    let _ = AccessPattern::Chess;
    Ok(())
}

pub fn c09() -> Property {
    fn each(i: u64, cx: &mut Cx) -> Verdict {
        let e = Eep {
            cam: Cam::M640,
            head: (0..64).map(|k| if k == 0x35 { i as u16 } else { mixh(9, k) as u16 }).collect(),
            pix: Words::constant(0x1230),
        };
        comp_check(Cam::M640, &e.words(), cx)
    }
    Property {
        id: "C09",
        assumptions: vec!["\"no compensation\" and a compensation of zero are not told apart"],
        families: vec![
            Box::new(All {
                name: "every_coefficient_word",
                rule: "all 65536 values of the coefficient word; non-trivial if some pixel is compensated",
                total: |_| 65536,
                complete: |_| true,
                test: each,
            }),
            Box::new(Gen::<Eep> {
                name: "any_image",
                rule: "some pixel is compensated",
                quick: 24_000,
                thorough: 800_000,
                strat: |_| eep_any(),
                test: |e, cx| comp_check(e.cam, &e.words(), cx),
            }),
        ],
    }
}
