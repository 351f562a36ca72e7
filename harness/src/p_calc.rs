//! C10–C17: subpages, reading frames and the conversion formulas.
use std::cell::RefCell;
use std::rc::Rc;

use mlx9064x::calculations::{
    ambient_temperature, delta_v, per_pixel_temperature, per_pixel_v_ir, raw_ir_to_temperatures, raw_pixels_to_ir_data,
    raw_pixels_to_temperatures, sensitivity_correction_coefficient, t_ar, v_dd, v_ptat_art, CommonIrData, RamData,
};
use mlx9064x::common::{read_ram, MelexisCamera};
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::AccessPattern;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::device::*;
use crate::engine::*;
use crate::ensure;
use crate::ev::Ev;
use crate::model::*;
use crate::p_driver::*;
use crate::spec::*;
use crate::with_cal;

// ------------------------------------------------------------------ C10

fn read_any(
    cam: Cam,
    bus: &mut SimBus,
    addr: u8,
    a: AccessPattern,
    s: usize,
    buf: &mut [u8],
) -> Result<RamData, DErr> {
    Ok(match cam {
        Cam::M640 => read_ram::<Mlx90640, SimBus, 24>(bus, addr, a, sp(s), buf)?,
        Cam::M641 => read_ram::<Mlx90641, SimBus, 12>(bus, addr, a, sp(s), buf)?,
    })
}

pub fn members(cam: Cam, a: AccessPattern, s: usize) -> Vec<bool> {
    let n = 4 * cam.pixels();
    match cam {
        Cam::M640 => Mlx90640::pixels_in_subpage(sp(s), a).into_iter().take(n).collect(),
        Cam::M641 => Mlx90641::pixels_in_subpage(sp(s), a).into_iter().take(n).collect(),
    }
}

fn plan(i: u64, cx: &mut Cx) -> Verdict {
    let cam = Cam::BOTH[(i & 1) as usize];
    let a = ap(i & 2 != 0);
    cx.nontrivial();
    let n = cam.pixels();
    let (dims, consts) = match cam {
        Cam::M640 => ((Mlx90640::HEIGHT, Mlx90640::WIDTH, Mlx90640::NUM_PIXELS), Mlx90640::SELF_HEATING),
        Cam::M641 => ((Mlx90641::HEIGHT, Mlx90641::WIDTH, Mlx90641::NUM_PIXELS), Mlx90641::SELF_HEATING),
    };
    ensure!(dims == (cam.height(), cam.width(), n), "{cam:?} is {dims:?}");
    ensure!(f64::from(consts) == cam.self_heating(), "{cam:?} self heating is {consts}");
    let m: Vec<Vec<bool>> = (0..2).map(|s| members(cam, a, s)).collect();
    for (s, m) in m.iter().enumerate() {
        ensure!(m.len() == n, "{cam:?} {a:?} subpage {s}: {} membership entries for {n} pixels", m.len());
        for (p, v) in m.iter().enumerate() {
            ensure!(
                *v == cam.member(s, a, p),
                "{cam:?} {a:?}: pixel {p} {} in subpage {s}",
                if *v { "is" } else { "is not" }
            );
        }
        let ranges = match cam {
            Cam::M640 => Mlx90640::pixel_ranges(sp(s), a).into_iter().take(1000).count(),
            Cam::M641 => Mlx90641::pixel_ranges(sp(s), a).into_iter().take(1000).count(),
        };
        ensure!(
            (1..=cam.height()).contains(&ranges),
            "{cam:?} {a:?} subpage {s}: {ranges} read ranges for {} rows",
            cam.height()
        );
        // The plan reaches every member: RAM holds all-ones where the buffer starts zeroed.
        let mut dev = Dev::new(cam, 0x33, vec![0; EEPROM_WORDS]);
        dev.ram = vec![0xFFFF; cam.ram_words()];
        let mut bus = SimBus(Rc::new(RefCell::new(dev)));
        let mut buf = vec![0u8; 2 * n];
        read_any(cam, &mut bus, 0x33, a, s, &mut buf).map_err(|e| format!("read failed: {e:?}"))?;
        for p in (0..n).filter(|p| m[*p]) {
            ensure!(buf[2 * p] & buf[2 * p + 1] == 0xFF, "{cam:?} {a:?} subpage {s}: pixel {p} is never read");
        }
    }
    Ok(())
}

fn correction(i: u64, cx: &mut Cx) -> Verdict {
    let cam = Cam::BOTH[(i % 2) as usize];
    let (c, u) = ((i / 2 % 4) as usize, (i / 8) as usize);
    cx.nontrivial();
    let (rc, ru) = (RESOLUTIONS[c], RESOLUTIONS[u]);
    let got = match cam {
        Cam::M640 => Mlx90640::resolution_correction(rc, ru),
        Cam::M641 => Mlx90641::resolution_correction(rc, ru),
    };
    let want = res_correction(c as u16, u as u16);
    ensure!(got == want, "{cam:?}: correction from {rc:?} to {ru:?} is {got}, expected {want}");
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        assumptions: vec![],
        families: vec![
            Box::new(All {
                name: "subpages",
                rule: "every camera and access pattern, both subpages",
                total: |_| 4,
                complete: |_| true,
                test: plan,
            }),
            Box::new(All {
                name: "resolution_correction",
                rule: "every camera and pair of resolutions",
                total: |_| 32,
                complete: |_| true,
                test: correction,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadCase {
    cam: Cam,
    chess: bool,
    s: u8,
    addr: u8,
    frame: Frame,
    before: Words,
    extra: usize,
    /// Registers around: must not matter.
    status: u16,
    control: u16,
}

fn read_case(c: &ReadCase, cx: &mut Cx) -> Verdict {
    let (cam, s, a) = (c.cam, usize::from(c.s % 2), ap(c.chess));
    let n = cam.pixels();
    let ram = c.frame.ram(cam);
    let mut dev = Dev::new(cam, c.addr, vec![0x1111; EEPROM_WORDS]);
    dev.ram = ram.clone();
    dev.sealed = true;
    dev.status = c.status;
    dev.control = c.control;
    let mut bus = SimBus::new(dev);
    let before: Vec<u8> = (0..2 * n + c.extra).map(|i| c.before.at(i) as u8).collect();
    let mut buf = before.clone();
    let data = read_any(cam, &mut bus, c.addr, a, s, &mut buf).map_err(|e| format!("read failed: {e:?}"))?;
    let dev = bus.0.borrow();
    ensure!(dev.breaches.is_empty(), "{}", dev.breaches.join("; "));
    let word = |p: usize| ram[cam.ram_index(s, p)].to_be_bytes();
    let mut members = 0;
    for p in 0..n {
        let got = [buf[2 * p], buf[2 * p + 1]];
        if cam.member(s, a, p) {
            members += 1;
            ensure!(
                got == word(p),
                "{cam:?} {a:?} subpage {s}: pixel {p} is {got:02x?}, the camera has {:02x?}",
                word(p)
            );
        } else {
            for k in 0..2 {
                ensure!(
                    got[k] == word(p)[k] || got[k] == before[2 * p + k],
                    "{cam:?} {a:?} subpage {s}: byte {k} of pixel {p} became {:#04x}, neither its old value nor the camera's",
                    got[k]
                );
            }
        }
    }
    ensure!(buf[2 * n..] == before[2 * n..], "bytes past the image changed");
    let x = c.frame.aux(s);
    let got = Aux {
        vbe: data.t_a_v_be,
        ptat: data.t_a_ptat,
        vdd: data.v_dd_pixel,
        gain: data.gain,
        cp: data.compensation_pixel,
    };
    ensure!(got == x, "{cam:?} subpage {s}: per-frame values are {got:?}, the camera has {x:?}");
    let mut pixel_reads = 0;
    for t in &dev.log {
        match t {
            Tx::Read(at, _, _) => {
                ensure!(*at >= RAM_BASE && *at <= cam.ram_end(), "read at {at:#06x}, outside RAM");
                pixel_reads += u32::from(usize::from(at - RAM_BASE) < cam.ram_pixel_words());
            }
            Tx::Write(at, v, _) => return Err(format!("reading a frame wrote {v:#06x} to {at:#06x}")),
        }
    }
    ensure!(
        pixel_reads as usize <= cam.height(),
        "{pixel_reads} pixel reads for {} rows",
        cam.height()
    );
    if (0..n).any(|p| word(p) != word(0)) && members > 0 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        assumptions: vec!["reads in units of whole words, as the camera supports"],
        families: vec![Box::new(Gen::<ReadCase> {
            name: "read",
            rule: "the pixel words are not all equal",
            quick: 160_000,
            thorough: 6_000_000,
            strat: |_| {
                (
                    any_cam(),
                    any::<bool>(),
                    0u8..2,
                    1u8..0x80,
                    prop_oneof![frame_wild(), frame_physical()],
                    words(2000, any::<u16>().boxed(), &[0xFFFF]),
                    extra(),
                    any::<u16>(),
                    any::<u16>(),
                )
                    .prop_map(|(cam, chess, s, addr, frame, before, extra, status, control)| ReadCase {
                        cam,
                        chess,
                        s,
                        addr,
                        frame,
                        before,
                        extra,
                        status,
                        control,
                    })
                    .boxed()
            },
            test: read_case,
        })],
    }
}

// ------------------------------------------------------------------ conversions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    pub cal: CalCase,
    pub frame: Frame,
    pub s: u8,
    pub chess: bool,
    pub rc: f32,
    pub emissivity: f32,
    pub reflected: Option<f32>,
    pub dest: u32,
    pub extra: usize,
}

pub fn correction_factor() -> BoxedStrategy<f32> {
    prop_oneof![2 => Just(1f32).boxed(), 4 => (-3i32..=3).prop_map(|n| (n as f32).exp2()), 1 => fl(0.2, 4.0)].boxed()
}

pub fn conv(cal: BoxedStrategy<CalCase>, frame: BoxedStrategy<Frame>) -> BoxedStrategy<Conv> {
    (
        cal,
        frame,
        0u8..2,
        any::<bool>(),
        correction_factor(),
        emissivity(),
        reflected(),
        any::<u32>(),
        extra(),
    )
        .prop_map(|(cal, frame, s, chess, rc, emissivity, reflected, dest, extra)| Conv {
            cal,
            frame,
            s,
            chess,
            rc,
            emissivity,
            reflected,
            dest,
            extra,
        })
        .boxed()
}

pub fn conv_default() -> BoxedStrategy<Conv> {
    prop_oneof![
        6 => conv(cal_physical(), frame_physical()),
        1 => conv(cal_any(), frame_any()),
    ]
    .boxed()
}

impl Conv {
    pub fn s(&self) -> usize {
        usize::from(self.s % 2)
    }
    pub fn ap(&self) -> AccessPattern {
        ap(self.chess)
    }
    /// Values to be overwritten: any bit pattern.
    pub fn before(&self, n: usize) -> Vec<f32> {
        (0..n + self.extra).map(|i| f32::from_bits(mixh(u64::from(self.dest), i as u64) as u32)).collect()
    }
    pub fn shot<'a>(&self, ram: &'a [u16]) -> Shot<'a> {
        Shot {
            ram,
            s: self.s(),
            ap: self.ap(),
            rc: self.rc,
            emissivity: self.emissivity,
            reflected: self.reflected,
        }
    }
}

pub fn pixel_bytes(cam: Cam, ram: &[u16], s: usize) -> Vec<u8> {
    (0..cam.pixels()).flat_map(|p| ram[cam.ram_index(s, p)].to_be_bytes()).collect()
}

pub fn ram_data(x: &Aux) -> RamData {
    RamData { t_a_v_be: x.vbe, t_a_ptat: x.ptat, v_dd_pixel: x.vdd, gain: x.gain, compensation_pixel: x.cp }
}

/// The library's IR conversion.
pub fn lib_ir(cal: &AnyCal, c: &Conv, bytes: &[u8], aux: &Aux, dest: &mut [f32]) -> f32 {
    let mut m = members(cal.cam(), c.ap(), c.s()).into_iter();
    with_cal!(cal, k => raw_pixels_to_ir_data(
        &**k, c.emissivity, c.rc, bytes, ram_data(aux), sp(c.s()), c.ap(), &mut m, dest))
}

/// The library's one-pass temperature conversion.
pub fn lib_fused(cal: &AnyCal, c: &Conv, bytes: &[u8], aux: &Aux, dest: &mut [f32]) -> f32 {
    let mut m = members(cal.cam(), c.ap(), c.s()).into_iter();
    with_cal!(cal, k => raw_pixels_to_temperatures(
        &**k, c.emissivity, c.reflected, c.rc, bytes, ram_data(aux), sp(c.s()), c.ap(), &mut m, dest))
}

/// The library's conversion of IR values.
pub fn lib_temps(cal: &AnyCal, c: &Conv, t_a: f32, dest: &mut [f32]) {
    let mut m = members(cal.cam(), c.ap(), c.s()).into_iter();
    with_cal!(cal, k => raw_ir_to_temperatures(&**k, c.emissivity, t_a, c.reflected, sp(c.s()), &mut m, dest))
}

fn tally(cx: &mut Cx, t: &Tally) {
    cx.add("pixels_compared", t.decided);
    cx.add("pixels_undefined", t.undefined);
    cx.add("pixels_ill_conditioned", t.unknown);
    cx.add("pixels_untouched", t.untouched);
    if t.decided > 0 {
        cx.nontrivial();
    }
}

// ------------------------------------------------------------------ C12

fn frame_values(c: &Conv, cx: &mut Cx) -> Verdict {
    let cal = c.cal.build()?;
    let r = cal.reference();
    let x = c.frame.aux(c.s());
    let want = common(&r, c.rc, &x);
    let one = Ev::exact(1.0);
    let mut decided = 0u64;
    let mut check = |what: &str, want: Ev, got: f32| -> Result<(), String> {
        if same(what, want, got)? {
            decided += 1;
        }
        Ok(())
    };
    with_cal!(&cal, k => {
        let k = &**k;
        let dv = no_panic("delta_v", || delta_v(k, x.vdd))?;
        check("delta_v", want.delta_v, dv)?;
        let v = no_panic("v_dd", || v_dd(k, c.rc, dv))?;
        check("v_dd", want.v_dd, v)?;
        let va = no_panic("v_ptat_art", || v_ptat_art(k, x.ptat, x.vbe))?;
        check("v_ptat_art", want.v_ptat_art, va)?;
        let ta = no_panic("ambient_temperature", || ambient_temperature(k, va, dv))?;
        check("ambient_temperature", want.t_a, ta)?;
        let all = no_panic("CommonIrData::new", || CommonIrData::new(c.rc, c.emissivity, k, &ram_data(&x)))?;
        check("CommonIrData::v_dd", want.v_dd, all.v_dd)?;
        check("CommonIrData::t_a", want.t_a, all.t_a)?;
        check("CommonIrData::gain", want.gain, all.gain)?;
        ensure!(all.emissivity == c.emissivity, "CommonIrData::emissivity is {}", all.emissivity);
        for t_a in [ta, 25.0, -40.0, 85.0, c.reflected.unwrap_or(0.0)] {
            let coeff = sensitivity_correction_coefficient(k, t_a);
            let w = one + r.k_s_ta * (Ev::exact(f64::from(t_a)) - Ev::exact(25.0));
            check("sensitivity_correction_coefficient", w, coeff)?;
        }
    });
    cx.add("values_compared", decided);
    if decided >= 5 {
        cx.nontrivial();
    }
    if c.rc != 1.0 {
        cx.hit("resolution_correction_in_force");
    }
    Ok(())
}

/// `v_dd` for any voltage deviation.
fn supply_voltage(c: &(CalCase, f32, f32), cx: &mut Cx) -> Verdict {
    let cal = c.0.build()?;
    let r = cal.reference();
    let (rc, dv) = (Ev::from(c.1), Ev::from(c.2));
    let k = Ev::exact(f64::from(r.k_v_dd));
    let v25 = Ev::exact(f64::from(r.v_dd_25));
    let room = c.1.abs().max(1.0) * (r.v_dd_25 as f32 / r.k_v_dd as f32).abs() * 2.0 + (c.1 * c.2).abs();
    let want = (rc * dv + (rc - Ev::exact(1.0)) * v25 / k + Ev::from(r.v_dd_0)).room(f64::from(room));
    with_cal!(&cal, k => {
        if same("v_dd", want, v_dd(&**k, c.1, c.2))? {
            cx.nontrivial();
        }
    });
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        assumptions: vec!["values whose formula is within rounding of a division by zero are not compared (only required not to panic)"],
        families: vec![
            Box::new(Gen::<Conv> {
                name: "frame_values",
                rule: "at least five values were well-conditioned and compared",
                quick: 160_000,
                thorough: 6_000_000,
                strat: |_| {
                    prop_oneof![
                        2 => conv(cal_physical(), frame_physical()),
                        2 => conv(cal_any(), frame_wild()),
                    ]
                    .boxed()
                },
                test: frame_values,
            }),
            Box::new(Gen::<(CalCase, f32, f32)> {
                name: "supply_voltage",
                rule: "well-conditioned",
                quick: 40_000,
                thorough: 1_200_000,
                strat: |_| (cal_any(), correction_factor(), prop_oneof![fl(-0.3, 0.3), fl(-20.0, 20.0)]).boxed(),
                test: supply_voltage,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C13

fn ir_case(c: &Conv, cx: &mut Cx) -> Verdict {
    let cal = c.cal.build()?;
    let cam = cal.cam();
    let r = cal.reference();
    let ram = c.frame.ram(cam);
    let shot = c.shot(&ram);
    let before = c.before(cam.pixels());
    let mut after = before.clone();
    let aux = shot.aux(cam);
    let t_a = lib_ir(&cal, c, &pixel_bytes(cam, &ram, c.s()), &aux, &mut after);
    let want = image(&r, &shot, false);
    let mut t = Tally::default();
    compare("IR image", &want, &before, &after, &[], &mut t)?;
    same("returned ambient temperature", want.t_a, t_a)?;
    tally(cx, &t);
    if r.tgc.is_some() {
        cx.hit("with_gradient_compensation");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PixelIr {
    raw: i16,
    gain: f32,
    v_dd: f32,
    emissivity: f32,
    t_a: f32,
    offset: i16,
    kv: f32,
    kta: f32,
    comp: Option<f32>,
}

fn pixel_ir(c: &PixelIr, cx: &mut Cx) -> Verdict {
    let common = CommonIrData { gain: c.gain, v_dd: c.v_dd, emissivity: c.emissivity, t_a: c.t_a };
    let got = per_pixel_v_ir(c.raw, &common, c.offset, c.kv, c.kta, c.comp);
    let want = v_ir(
        c.raw,
        c.gain.into(),
        c.t_a.into(),
        c.v_dd.into(),
        c.emissivity.into(),
        i32::from(c.offset),
        c.kv.into(),
        c.kta.into(),
        c.comp.map(Ev::from),
    );
    if same("per_pixel_v_ir", want, got)? {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        assumptions: vec!["single-precision evaluation in any order of operations is accepted"],
        families: vec![
            Box::new(Gen::<Conv> {
                name: "image",
                rule: "at least one pixel was well-conditioned and compared",
                quick: 40_000,
                thorough: 1_600_000,
                strat: |_| conv_default(),
                test: ir_case,
            }),
            Box::new(Gen::<PixelIr> {
                name: "pixel",
                rule: "well-conditioned",
                quick: 400_000,
                thorough: 12_000_000,
                strat: |_| {
                    let opt = prop_oneof![1 => Just(None).boxed(), 2 => fl(-32.0, 32.0).prop_map(Some).boxed()];
                    (
                        edge_i16(),
                        prop_oneof![fl(0.5, 1.5), fl(-10.0, 10.0)],
                        prop_oneof![fl(3.0, 3.6), fl(-5.0, 10.0)],
                        emissivity(),
                        prop_oneof![fl(-40.0, 85.0), fl(-300.0, 500.0)],
                        edge_i16(),
                        fl(-2.0, 2.0),
                        fl(-0.1, 0.1),
                        opt,
                    )
                        .prop_map(|(raw, gain, v_dd, emissivity, t_a, offset, kv, kta, comp)| PixelIr {
                            raw,
                            gain,
                            v_dd,
                            emissivity,
                            t_a,
                            offset,
                            kv,
                            kta,
                            comp,
                        })
                        .boxed()
                },
                test: pixel_ir,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C14

/// IR values for a temperature image.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IrCase {
    conv: Conv,
    t_a: f32,
    ir: Noise,
}

fn temp_case(c: &IrCase, cx: &mut Cx) -> Verdict {
    let cal = c.conv.cal.build()?;
    let cam = cal.cam();
    let r = cal.reference();
    let s = c.conv.s();
    let n = cam.pixels();
    let before: Vec<f32> = (0..n + c.conv.extra).map(|i| c.ir.at(i)).collect();
    let mut after = before.clone();
    lib_temps(&cal, &c.conv, c.t_a, &mut after);
    let t = to_temp(&r, s, Ev::from(c.t_a), c.conv.reflected, c.conv.emissivity);
    let px = (0..n)
        .map(|i| cam.member(s, c.conv.ap(), i).then(|| t.pixel(Ev::from(before[i]), r.alpha[s][i])))
        .collect();
    let want = Image { t_a: Ev::from(c.t_a), px };
    let mut tl = Tally::default();
    compare("temperature image", &want, &before, &after, &[], &mut tl)?;
    tally(cx, &tl);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PixelT {
    v_ir: f32,
    alpha: f32,
    ks: f32,
    t_a: f32,
    t_r: f32,
    emissivity: f32,
}

fn pixel_temp(c: &PixelT, cx: &mut Cx) -> Verdict {
    let got = t_ar(c.t_a, c.t_r, c.emissivity);
    let want = crate::model::t_ar(c.t_a.into(), c.t_r.into(), c.emissivity);
    let a = same("t_ar", want, got)?;
    let t = per_pixel_temperature(c.v_ir, c.alpha, got, c.ks);
    let w = temperature(c.v_ir.into(), c.alpha.into(), got.into(), c.ks.into());
    match w.agrees(t) {
        Some(false) => return Err(format!("per_pixel_temperature is {t}, expected {}", show(&w))),
        Some(true) if a => cx.nontrivial(),
        _ => {}
    }
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        assumptions: vec!["pixels whose formula is within rounding of a singularity are not compared"],
        families: vec![
            Box::new(Gen::<IrCase> {
                name: "image",
                rule: "at least one pixel was well-conditioned and compared",
                quick: 40_000,
                thorough: 1_600_000,
                strat: |_| {
                    let ir = (fl(-500.0, 1500.0), fl(0.0, 1200.0), any::<u32>())
                        .prop_map(|(base, spread, seed)| Noise { base, spread, seed });
                    (conv_default(), fl(-40.0, 85.0), ir).prop_map(|(conv, t_a, ir)| IrCase { conv, t_a, ir }).boxed()
                },
                test: temp_case,
            }),
            Box::new(Gen::<PixelT> {
                name: "pixel",
                rule: "well-conditioned",
                quick: 400_000,
                thorough: 12_000_000,
                strat: |_| {
                    (
                        prop_oneof![fl(-800.0, 3000.0), fl(-20.0, 20.0)],
                        prop_oneof![4 => fl(0.5e-7, 6e-7).boxed(), 1 => fl(-1e-6, 1e-6).boxed()],
                        fl(-0.002, 0.001),
                        fl(-60.0, 120.0),
                        fl(-60.0, 300.0),
                        emissivity(),
                    )
                        .prop_map(|(v_ir, alpha, ks, t_a, t_r, emissivity)| PixelT {
                            v_ir,
                            alpha,
                            ks,
                            t_a,
                            t_r,
                            emissivity,
                        })
                        .boxed()
                },
                test: pixel_temp,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C15

fn two_paths(c: &Conv, cx: &mut Cx) -> Verdict {
    let cal = c.cal.build()?;
    let cam = cal.cam();
    let ram = c.frame.ram(cam);
    let shot = c.shot(&ram);
    let aux = shot.aux(cam);
    let bytes = pixel_bytes(cam, &ram, c.s());
    let before = c.before(cam.pixels());
    let mut fused = before.clone();
    let mut steps = before.clone();
    let ta1 = lib_fused(&cal, c, &bytes, &aux, &mut fused);
    let ta2 = lib_ir(&cal, c, &bytes, &aux, &mut steps);
    lib_temps(&cal, c, ta2, &mut steps);
    // The reference only supplies the conditioning of each pixel.
    let want = image(&cal.reference(), &shot, true);
    let close = |a: f32, b: f32, e: Ev| {
        a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || !e.ok() || f64::from((a - b).abs()) <= 2.0 * e.tol()
    };
    ensure!(close(ta1, ta2, want.t_a), "ambient temperature is {ta1} in one pass and {ta2} in two steps");
    let mut decided = 0;
    for i in 0..before.len() {
        let ok = match want.px.get(i).copied().flatten() {
            None => {
                fused[i].to_bits() == steps[i].to_bits() && fused[i].to_bits() == before[i].to_bits()
            }
            Some(Want::Is(e)) => {
                decided += 1;
                close(fused[i], steps[i], e)
            }
            Some(Want::Undefined) => fused[i].is_finite() == steps[i].is_finite(),
            Some(Want::Unknown) => true,
        };
        ensure!(ok, "pixel {i} is {} in one pass and {} in two steps", fused[i], steps[i]);
    }
    cx.add("pixels_compared", decided);
    if decided > 0 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        assumptions: vec!["pixels whose formula is within rounding of a singularity are not compared"],
        families: vec![Box::new(Gen::<Conv> {
            name: "paths",
            rule: "at least one pixel was well-conditioned and compared",
            quick: 40_000,
            thorough: 1_600_000,
            strat: |_| conv_default(),
            test: two_paths,
        })],
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    conv: Conv,
    /// Pixels that keep their words; all the others are replaced from `noise`.
    keep: Vec<u16>,
    noise: u32,
    dest2: u32,
    /// The other subpage's frame.
    next: Frame,
}

fn convert(kind: usize, cal: &AnyCal, c: &Conv, frame: &Frame, bytes: &[u8], dest: &mut [f32]) {
    let aux = frame.aux(c.s());
    match kind {
        0 => {
            lib_ir(cal, c, bytes, &aux, dest);
        }
        1 => {
            lib_fused(cal, c, bytes, &aux, dest);
        }
        _ => {
            let t = lib_ir(cal, c, bytes, &aux, dest);
            lib_temps(cal, c, t, dest);
        }
    }
}

fn eq(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

fn locality(c: &Local, cx: &mut Cx) -> Verdict {
    let cal = c.conv.cal.build()?;
    let cam = cal.cam();
    let n = cam.pixels();
    let s = c.conv.s();
    let ram = c.conv.frame.ram(cam);
    let bytes = pixel_bytes(cam, &ram, s);
    let keep: Vec<usize> = c.keep.iter().map(|p| usize::from(*p) % n).collect();
    let mut other = bytes.clone();
    for p in (0..n).filter(|p| !keep.contains(p)) {
        let w = (mixh(u64::from(c.noise), p as u64) as i16 >> 5) as u16;
        other[2 * p..2 * p + 2].copy_from_slice(&w.to_be_bytes());
    }
    let before = c.conv.before(n);
    for kind in 0..3 {
        let name = ["IR", "one-pass temperature", "two-step temperature"][kind];
        let mut a = before.clone();
        convert(kind, &cal, &c.conv, &c.conv.frame, &bytes, &mut a);
        for i in 0..a.len() {
            let member = i < n && cam.member(s, c.conv.ap(), i);
            if !member {
                ensure!(a[i].to_bits() == before[i].to_bits(), "{name}: element {i}, not of the subpage, changed");
            }
        }
        // other pixels' words
        let mut b = before.clone();
        convert(kind, &cal, &c.conv, &c.conv.frame, &other, &mut b);
        for p in &keep {
            ensure!(eq(a[*p], b[*p]), "{name}: pixel {p} depends on other pixels ({} and {})", a[*p], b[*p]);
        }
        // previous contents
        let d = Conv { dest: c.dest2, ..c.conv.clone() };
        let mut e = d.before(n);
        convert(kind, &cal, &c.conv, &c.conv.frame, &bytes, &mut e);
        for i in (0..n).filter(|i| cam.member(s, c.conv.ap(), *i)) {
            ensure!(
                eq(a[i], e[i]),
                "{name}: pixel {i} depends on what the destination held ({} and {})",
                a[i],
                e[i]
            );
        }
        // composition with the other subpage
        let o = Conv { s: (1 - s) as u8, ..c.conv.clone() };
        let nb = pixel_bytes(cam, &c.next.ram(cam), 1 - s);
        if cam == Cam::M640 {
            let (mut x, mut y) = (before.clone(), e.clone());
            convert(kind, &cal, &c.conv, &c.conv.frame, &bytes, &mut x);
            convert(kind, &cal, &o, &c.next, &nb, &mut x);
            convert(kind, &cal, &o, &c.next, &nb, &mut y);
            convert(kind, &cal, &c.conv, &c.conv.frame, &bytes, &mut y);
            for i in 0..n {
                ensure!(
                    eq(x[i], y[i]),
                    "{name}: pixel {i} depends on the order of the subpages ({} and {})",
                    x[i],
                    y[i]
                );
            }
            cx.hit("compositions");
        }
    }
    if bytes != other && !keep.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

/// The caller decides which pixels are converted.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Masked {
    conv: Conv,
    mask: Mask,
    /// How the selection ends: with the image, long after it (two ways), or early.
    end: u8,
    /// Bytes after the pixels' words.
    more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mask {
    /// In 256ths.
    Noise(u32, u8),
    Only(Vec<u16>),
    Except(Vec<u16>),
    Rows(u32),
    Columns(u32),
}

impl Mask {
    fn of(&self, cam: Cam) -> Vec<bool> {
        let n = cam.pixels();
        let w = cam.width();
        (0..n)
            .map(|i| match self {
                Mask::Noise(seed, d) => mixh(u64::from(*seed), i as u64) as u8 <= *d,
                Mask::Only(v) => v.iter().any(|p| usize::from(*p) % n == i),
                Mask::Except(v) => v.iter().all(|p| usize::from(*p) % n != i),
                Mask::Rows(m) => m >> (i / w % 32) & 1 == 1,
                Mask::Columns(m) => m >> (i % w) & 1 == 1,
            })
            .collect()
    }
}

fn masked(c: &Masked, cx: &mut Cx) -> Verdict {
    let v = &c.conv;
    let cal = v.cal.build()?;
    let cam = cal.cam();
    let n = cam.pixels();
    let mut bytes = pixel_bytes(cam, &v.frame.ram(cam), v.s());
    // A calibration made up by the harness may have more values than there are pixels; only with the
    // library's own is it certain that there is nothing to select after the image.
    let end = match c.end % 4 {
        1 if matches!(v.cal, CalCase::Custom(_)) => 2,
        end => end,
    };
    if end == 0 || end == 3 {
        bytes.extend((0..c.more).map(|i| mixh(11, u64::from(i)) as u8));
    }
    let aux = v.frame.aux(v.s());
    let before = v.before(n);
    let convert = |kind: usize, m: &[bool], dest: &mut [f32]| -> f32 {
        // Pixels after the last one in the selection are not selected.
        let len = if end == 3 { m.iter().rposition(|b| *b).map_or(0, |i| i + 1) } else { n };
        let selection = || {
            m[..len].iter().copied().chain(std::iter::repeat(end == 1).take(if matches!(end, 1 | 2) { 3000 } else { 0 }))
        };
        let (mut m1, mut m2) = (selection(), selection());
        with_cal!(&cal, k => match kind {
            0 | 2 => {
                let t_a = raw_pixels_to_ir_data(
                    &**k, v.emissivity, v.rc, &bytes, ram_data(&aux), sp(v.s()), v.ap(), &mut m1, dest);
                if kind == 2 {
                    raw_ir_to_temperatures(&**k, v.emissivity, t_a, v.reflected, sp(v.s()), &mut m2, dest);
                }
                t_a
            }
            _ => raw_pixels_to_temperatures(
                &**k, v.emissivity, v.reflected, v.rc, &bytes, ram_data(&aux), sp(v.s()), v.ap(), &mut m1, dest),
        })
    };
    let m = c.mask.of(cam);
    for kind in 0..3 {
        let name = ["IR", "one-pass temperature", "two-step temperature"][kind];
        let (mut a, mut all) = (before.clone(), before.clone());
        let ta = convert(kind, &m, &mut a);
        let tb = convert(kind, &vec![true; n], &mut all);
        ensure!(eq(ta, tb), "{name}: the ambient temperature depends on the selected pixels ({ta} and {tb})");
        for i in 0..a.len() {
            if i < n && m[i] {
                ensure!(
                    eq(a[i], all[i]),
                    "{name}: pixel {i} depends on which others are selected ({} and {})",
                    a[i],
                    all[i]
                );
            } else {
                ensure!(a[i].to_bits() == before[i].to_bits(), "{name}: element {i} changed without being selected");
            }
        }
    }
    let k = m.iter().filter(|b| **b).count();
    cx.add("pixels_selected", k as u64);
    if k > 0 && k < n {
        cx.nontrivial();
    }
    Ok(())
}

/// An image by a driver with a past, and what it may not depend on.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Later {
    /// What happened before.
    past: History,
    /// The image call.
    kind: u8,
    keep: Vec<u16>,
    noise: u32,
    dest2: u32,
}

fn later(c: &Later, cx: &mut Cx) -> Verdict {
    let Ok(Ok(mut w)) = no_panic("creating the driver", || start(&c.past)) else { return Ok(()) };
    for op in &c.past.ops {
        w.prepare(op);
        let (drv, dest) = (&mut w.drv, &mut w.dest);
        if !matches!(no_panic("the call", || apply(&mut **drv, op, dest)), Ok(Ok(_))) {
            return Ok(());
        }
    }
    let cam = w.cal.cam();
    let n = cam.pixels();
    let dev = w.bus.0.borrow().clone();
    let pattern = ap(dev.control & C_PATTERN != 0);
    let last = usize::from(dev.status & S_SUBPAGE);
    let (op, s) = match c.kind % 6 {
        0 => (Op::ImageSub(0), 0),
        1 => (Op::ImageSub(1), 1),
        2 => (Op::RawSub(0), 0),
        3 => (Op::RawSub(1), 1),
        4 => (Op::Image, last),
        _ => (Op::IfReady, last),
    };
    // A driver without a past, with the settings and the camera of the other one.
    let (emissivity, reflected) = (w.drv.effective_emissivity(), w.drv.reflected_temperature());
    let cal = w.cal.clone();
    let fresh = |ram: Option<&[u16]>, ops: &[&Op], before: &[f32]| -> Option<Vec<f32>> {
        let mut d = dev.clone();
        if let Some(r) = ram {
            d.ram.copy_from_slice(r);
        }
        d.budget = 100_000;
        d.sealed = false;
        let mut dest = before.to_vec();
        no_panic("an image", || {
            let mut drv = driver_with(&SimBus::new(d), &cal).ok()?;
            drv.override_emissivity(emissivity);
            drv.set_reflected_temperature(reflected);
            ops.iter().all(|op| apply(&mut *drv, op, &mut dest).is_ok()).then_some(())
        })
        .ok()??;
        Some(dest)
    };
    let before = w.dest.clone();
    let delivers = !matches!(op, Op::IfReady) || dev.status & S_NEW != 0;
    let member = |i: usize| delivers && i < n && cam.member(s, pattern, i);
    // The past
    let Some(want) = fresh(None, &[&op], &before) else { return Ok(()) };
    w.bus.0.borrow_mut().budget = 100_000;
    {
        let (drv, dest) = (&mut w.drv, &mut w.dest);
        if !matches!(no_panic("the call", || apply(&mut **drv, &op, dest)), Ok(Ok(_))) {
            return Ok(());
        }
    }
    for i in 0..before.len() {
        if member(i) {
            ensure!(
                eq(w.dest[i], want[i]),
                "{op:?} of a driver with a past: pixel {i} is {}, by a driver without one it is {}",
                w.dest[i],
                want[i]
            );
        } else {
            ensure!(w.dest[i].to_bits() == before[i].to_bits(), "{op:?}: element {i}, not of the subpage, changed");
        }
    }
    // The previous contents
    let before2: Vec<f32> =
        (0..before.len()).map(|i| f32::from_bits(mixh(u64::from(c.dest2), i as u64) as u32)).collect();
    if let Some(b) = fresh(None, &[&op], &before2) {
        for i in (0..n).filter(|i| member(*i)) {
            ensure!(
                eq(b[i], want[i]),
                "{op:?}: pixel {i} depends on what the destination held ({} and {})",
                want[i],
                b[i]
            );
        }
    }
    // Other pixels' words
    let keep: Vec<usize> = c.keep.iter().map(|p| usize::from(*p) % n).collect();
    let mut ram = dev.ram.clone();
    for p in (0..n).filter(|p| !keep.contains(p)) {
        for s in 0..2 {
            ram[cam.ram_index(s, p)] = (mixh(u64::from(c.noise), p as u64) as i16 >> 5) as u16;
        }
    }
    if let Some(b) = fresh(Some(&ram), &[&op], &before) {
        for p in keep.iter().filter(|p| member(**p)) {
            ensure!(
                eq(b[*p], want[*p]),
                "{op:?}: pixel {p} depends on other pixels ({} and {})",
                want[*p],
                b[*p]
            );
        }
    }
    // The order of the subpages
    if cam == Cam::M640 && c.kind % 6 < 4 {
        let o = match op {
            Op::ImageSub(s) => Op::ImageSub(1 - s),
            Op::RawSub(s) => Op::RawSub(1 - s),
            _ => unreachable!(),
        };
        if let (Some(x), Some(y)) = (fresh(None, &[&op, &o], &before), fresh(None, &[&o, &op], &before2)) {
            for i in 0..n {
                ensure!(
                    eq(x[i], y[i]),
                    "{op:?} and {o:?}: pixel {i} depends on the order of the subpages ({} and {})",
                    x[i],
                    y[i]
                );
            }
            cx.hit("compositions");
        }
    }
    cx.add("past_calls", c.past.ops.len() as u64);
    if delivers && ram != dev.ram && c.past.ops.iter().any(is_image) {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        assumptions: vec![
            "NaNs are considered equal whatever their payload",
            "what happens when a call fails or panics is judged by C22 and C27",
        ],
        families: vec![Box::new(Gen::<Later> {
            name: "driver",
            rule: "the image is one of several by a driver and other pixels' words really differ",
            quick: 40_000,
            thorough: 1_500_000,
            strat: |t| {
                let len = if t == Tier::Quick { 8 } else { 24 };
                (
                    history(small_cal(), frame_any(), ops(image_mix(), len)),
                    any::<u8>(),
                    proptest::collection::vec(0u16..768, 1..12),
                    any::<u32>(),
                    any::<u32>(),
                )
                    .prop_map(|(past, kind, keep, noise, dest2)| Later { past, kind, keep, noise, dest2 })
                    .boxed()
            },
            test: later,
        }), Box::new(Gen::<Masked> {
            name: "mask",
            rule: "some pixels are selected and some are not",
            quick: 20_000,
            thorough: 800_000,
            strat: |_| {
                let some = || proptest::collection::vec(0u16..768, 1..6);
                let mask = prop_oneof![
                    3 => (any::<u32>(), any::<u8>()).prop_map(|(s, d)| Mask::Noise(s, d)),
                    2 => some().prop_map(Mask::Only),
                    1 => some().prop_map(Mask::Except),
                    1 => any::<u32>().prop_map(Mask::Rows),
                    1 => any::<u32>().prop_map(Mask::Columns),
                ];
                (conv_default(), mask, any::<u8>(), prop_oneof![Just(0u8), 0u8..9])
                    .prop_map(|(conv, mask, end, more)| Masked { conv, mask, end, more })
                    .boxed()
            },
            test: masked,
        }), Box::new(Gen::<Local> {
            name: "locality",
            rule: "other pixels' words really differ and some pixel is kept",
            quick: 20_000,
            thorough: 800_000,
            strat: |_| {
                (
                    conv_default(),
                    proptest::collection::vec(0u16..768, 1..12),
                    any::<u32>(),
                    any::<u32>(),
                    frame_physical(),
                )
                    .prop_map(|(conv, keep, noise, dest2, next)| Local { conv, keep, noise, dest2, next })
                    .boxed()
            },
            test: locality,
        })],
    }
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Law {
    alpha: f32,
    ks: f32,
    t_a: f32,
    /// Uncorrected object temperatures
    t1: f32,
    t2: f32,
    r1: f32,
    r2: f32,
    emissivity: f32,
}

fn tol_t(w: &Want, got: f32) -> Result<f64, String> {
    match w {
        Want::Is(e) => Ok(e.tol()),
        _ => Err(format!("a well-conditioned pixel became {got}")),
    }
}

fn laws(c: &Law, cx: &mut Cx) -> Verdict {
    // zero IR: the sensor's own temperature
    let own = t_ar(c.t_a, c.r1, 1.0);
    let t0 = per_pixel_temperature(0.0, c.alpha, own, c.ks);
    let back = (Ev::from(c.t_a) + Ev::from(273.15f32)).pow(4);
    let want = temperature(Ev::exact(0.0), c.alpha.into(), back, c.ks.into());
    let tol = tol_t(&want, t0)?;
    ensure!(
        f64::from((t0 - c.t_a).abs()) <= tol + 1e-4,
        "no IR at emissivity 1 gives {t0} with the sensor at {} (±{tol})",
        c.t_a
    );
    // at emissivity 1 the surroundings do not matter
    let (x, y) = (own, t_ar(c.t_a, c.r2, 1.0));
    ensure!(
        f64::from((x - y).abs()) <= 2.0 * back.tol(),
        "at emissivity 1 the reflected temperature {} instead of {} changes {x} to {y}",
        c.r2,
        c.r1
    );
    // reflection cancels when the surroundings are at the sensor's temperature
    let z = t_ar(c.t_a, c.t_a, c.emissivity);
    let e = crate::model::t_ar(c.t_a.into(), c.t_a.into(), c.emissivity);
    ensure!(
        f64::from((z - own).abs()) <= e.tol() + back.tol(),
        "with surroundings at {} and emissivity {} the combined radiation is {z}, expected {own}",
        c.t_a,
        c.emissivity
    );
    // more IR is never colder
    let k = |t: f32| (f64::from(t) + 273.15).powi(4);
    let v = |t: f32| (f64::from(c.alpha) * (k(t) - k(c.t_a))) as f32;
    let (lo, hi) = if c.t1 <= c.t2 { (c.t1, c.t2) } else { (c.t2, c.t1) };
    let (v1, v2) = (v(lo), v(hi));
    let (a, b) = (per_pixel_temperature(v1, c.alpha, own, c.ks), per_pixel_temperature(v2, c.alpha, own, c.ks));
    let wa = tol_t(&temperature(v1.into(), c.alpha.into(), own.into(), c.ks.into()), a)?;
    let wb = tol_t(&temperature(v2.into(), c.alpha.into(), own.into(), c.ks.into()), b)?;
    ensure!(
        f64::from(b - a) >= -(wa + wb),
        "IR {v1} gives {a} but the larger IR {v2} gives {b}"
    );
    if hi - lo > 1.0 {
        ensure!(f64::from(b) > f64::from(a) - (wa + wb), "objects at {lo} and {hi} look the same: {a}, {b}");
    }
    // warmer surroundings never make the object look warmer below emissivity 1
    if c.emissivity < 1.0 {
        let (lo, hi) = if c.r1 <= c.r2 { (c.r1, c.r2) } else { (c.r2, c.r1) };
        let (p, q) = (t_ar(c.t_a, lo, c.emissivity), t_ar(c.t_a, hi, c.emissivity));
        let w = |t: f32| crate::model::t_ar(c.t_a.into(), t.into(), c.emissivity);
        ensure!(
            f64::from(q - p) <= w(lo).tol() + w(hi).tol(),
            "raising the reflected temperature from {lo} to {hi} raises the combined radiation from {p} to {q}"
        );
        let (a, b) = (per_pixel_temperature(v2, c.alpha, p, c.ks), per_pixel_temperature(v2, c.alpha, q, c.ks));
        let (wa, wb) = (
            temperature(v2.into(), c.alpha.into(), p.into(), c.ks.into()),
            temperature(v2.into(), c.alpha.into(), q.into(), c.ks.into()),
        );
        if let (Want::Is(wa), Want::Is(wb)) = (wa, wb) {
            let x = |t_ar: f32| (f64::from(v2) / f64::from(c.alpha) + f64::from(t_ar)).max(0.0).sqrt().sqrt();
            let seen = 200.0..700.0;
            if seen.contains(&x(p)) && seen.contains(&x(q)) {
                ensure!(
                    f64::from(b - a) <= wa.tol() + wb.tol(),
                    "raising the reflected temperature from {lo} to {hi} raises the object from {a} to {b}"
                );
                cx.hit("reflection_compared");
            }
        }
    }
    if hi - lo > 1.0 {
        cx.nontrivial();
    }
    Ok(())
}

/// The same laws on whole images, with a calibration of positive sensitivity.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LawImage {
    conv: Conv,
    t_a: f32,
    ir: Noise,
    step: Noise,
    r2: f32,
}

fn image_laws(c: &LawImage, cx: &mut Cx) -> Verdict {
    let cal = c.conv.cal.build()?;
    let cam = cal.cam();
    let r = cal.reference();
    let s = c.conv.s();
    let n = cam.pixels();
    let ks = r.ks_to[cam.basic_range()].v;
    if ks.abs() > 0.0012 {
        cx.hit("slope_too_large");
        return Ok(());
    }
    let em1 = Conv { emissivity: 1.0, ..c.conv.clone() };
    let t = to_temp(&r, s, c.t_a.into(), None, 1.0);
    let run = |c1: &Conv, f: &dyn Fn(usize) -> f32| {
        let mut d: Vec<f32> = (0..n).map(f).collect();
        lib_temps(&cal, c1, c.t_a, &mut d);
        d
    };
    let zero = run(&em1, &|_| 0.0);
    let base = run(&em1, &|i| c.ir.at(i));
    let more = run(&em1, &|i| c.ir.at(i) + c.step.at(i).abs());
    let other = run(&Conv { reflected: Some(c.r2), ..em1.clone() }, &|i| c.ir.at(i));
    let mut decided = 0;
    for i in (0..n).filter(|i| cam.member(s, c.conv.ap(), *i)) {
        let a = t.alpha(r.alpha[s][i]);
        if !(a.ok() && a.v > 4.0 * a.e && a.v > 1e-9) {
            continue;
        }
        if let Want::Is(w) = t.pixel(Ev::exact(0.0), r.alpha[s][i]) {
            ensure!(
                f64::from((zero[i] - c.t_a).abs()) <= w.tol() + 1e-4,
                "pixel {i} without IR is {} with the sensor at {}",
                zero[i],
                c.t_a
            );
        }
        let v = |x: f32| t.pixel(x.into(), r.alpha[s][i]);
        if let (Want::Is(w1), Want::Is(w2)) = (v(c.ir.at(i)), v(c.ir.at(i) + c.step.at(i).abs())) {
            ensure!(
                f64::from((other[i] - base[i]).abs()) <= 2.0 * w1.tol(),
                "at emissivity 1, pixel {i} changes from {} to {} with the reflected temperature",
                base[i],
                other[i]
            );
            // the law is about objects the camera can see: temperatures before the slope correction
            let x = |v: f32| (f64::from(v) / a.v + t.t_ar.v).max(0.0).sqrt().sqrt() - 273.15;
            let seen = -73.0..430.0;
            if seen.contains(&x(c.ir.at(i))) && seen.contains(&x(c.ir.at(i) + c.step.at(i).abs())) {
                decided += 1;
                ensure!(
                    f64::from(more[i] - base[i]) >= -(w1.tol() + w2.tol()),
                    "pixel {i} gets colder with more IR: {} then {}",
                    base[i],
                    more[i]
                );
            }
        }
    }
    cx.add("pixels_compared", decided);
    if decided > 0 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        assumptions: vec![
            "objects between -73 and 430 degrees, sensor between -40 and 85 degrees, slopes within 0.0012 per degree: outside, the documented formula itself need not be monotonic",
        ],
        families: vec![
            Box::new(Gen::<Law> {
                name: "pixel",
                rule: "the two object temperatures are at least a degree apart",
                quick: 400_000,
                thorough: 16_000_000,
                strat: |_| {
                    (
                        fl(0.5e-7, 8e-7),
                        fl(-0.001, 0.0008),
                        fl(-40.0, 85.0),
                        fl(-40.0, 300.0),
                        fl(-40.0, 300.0),
                        fl(-40.0, 85.0),
                        fl(-40.0, 85.0),
                        fl(0.2, 1.0),
                    )
                        .prop_map(|(alpha, ks, t_a, t1, t2, r1, r2, emissivity)| Law {
                            alpha,
                            ks,
                            t_a,
                            t1,
                            t2,
                            r1,
                            r2,
                            emissivity,
                        })
                        .boxed()
                },
                test: laws,
            }),
            Box::new(Gen::<LawImage> {
                name: "image",
                rule: "at least one pixel in the physical range was compared",
                quick: 16_000,
                thorough: 600_000,
                strat: |_| {
                    let nz = |lo: f32, hi: f32, s: f32| {
                        (fl(lo, hi), fl(0.0, s), any::<u32>()).prop_map(|(base, spread, seed)| Noise { base, spread, seed })
                    };
                    (
                        conv(cal_physical(), frame_physical()),
                        fl(-40.0, 85.0),
                        nz(-300.0, 800.0, 600.0),
                        nz(0.0, 50.0, 100.0),
                        fl(-40.0, 150.0),
                    )
                        .prop_map(|(conv, t_a, ir, step, r2)| LawImage { conv, t_a, ir, step, r2 })
                        .boxed()
                },
                test: image_laws,
            }),
        ],
    }
}

