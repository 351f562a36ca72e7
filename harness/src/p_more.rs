//! C30–C33: several drivers side by side, whole scenes, errors, addresses.
use std::cell::RefCell;
use std::convert::TryFrom;
use std::error::Error as _;
use std::rc::Rc;

use mlx9064x::mlx90640::{self, Mlx90640};
use mlx9064x::mlx90641::{self, Mlx90641};
use mlx9064x::common::{CalibrationData, FlaggedPixels};
use mlx9064x::{AccessPattern, Address, Error, LibraryError, MelexisCamera, Subpage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::device::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::p_driver::*;
use crate::spec::*;

// ------------------------------------------------------------------ C30

/// Everything observable about one call.
#[derive(Clone, Debug, PartialEq)]
struct Step {
    result: Result<Val, DErr>,
    image: u64,
    settings: (u32, Option<u32>, Option<u32>),
    log: Vec<Tx>,
    registers: (u16, u16),
}

fn canonical(v: f32) -> u32 {
    if v.is_nan() {
        f32::NAN.to_bits()
    } else {
        v.to_bits()
    }
}

fn step(w: &mut World, op: &Op) -> Result<Step, String> {
    w.prepare(op);
    let log0 = w.bus.0.borrow().log.len();
    let result = {
        let (drv, dest) = (&mut w.drv, &mut w.dest);
        no_panic("the call", || apply(&mut **drv, op, dest))?
    };
    let d = w.bus.0.borrow();
    Ok(Step {
        result,
        image: w.dest.iter().fold(7, |h, v| mixh(h, u64::from(canonical(*v)))),
        settings: (
            canonical(w.drv.effective_emissivity()),
            w.drv.reflected_temperature().map(canonical),
            w.drv.ambient_temperature().map(canonical),
        ),
        log: d.log[log0..].to_vec(),
        registers: (d.status, d.control),
    })
}

fn differs(a: &Step, b: &Step) -> String {
    if a.result != b.result {
        format!("returns {:?}, alone it returns {:?}", a.result, b.result)
    } else if a.log != b.log {
        format!("performs {:x?}, alone it performs {:x?}", a.log, b.log)
    } else if a.registers != b.registers {
        format!("leaves the registers {:x?}, alone {:x?}", a.registers, b.registers)
    } else if a.settings != b.settings {
        format!("leaves the settings {:x?}, alone {:x?}", a.settings, b.settings)
    } else {
        "leaves another image than alone".into()
    }
}

/// The steps of a history on its own; shorter if a call panics.
fn alone(h: &History) -> Result<Vec<Step>, String> {
    let p = parts(h)?;
    let bus = SimBus::new(p.dev.clone());
    let drv = driver_on(bus.clone(), p.cal.cam(), h.addr, p.supplied()).map_err(|e| format!("{e:?}"))?;
    let mut w = p.world(bus, drv);
    let mut out = vec![];
    for op in &h.ops {
        match step(&mut w, op) {
            Ok(s) => out.push(s),
            Err(_) => break,
        }
    }
    Ok(out)
}

/// Histories of several cameras on one bus, and the order in which their calls happen.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    histories: Vec<History>,
    order: Vec<u8>,
}

fn interleave<'a>(lens: &[usize], order: &'a [u8]) -> impl Iterator<Item = usize> + 'a {
    let mut left = lens.to_vec();
    let mut order = order.iter();
    std::iter::from_fn(move || loop {
        match order.next() {
            Some(k) => {
                let k = usize::from(*k) % left.len();
                if left[k] > 0 {
                    left[k] -= 1;
                    return Some(k);
                }
            }
            None => {
                let k = left.iter().position(|n| *n > 0)?;
                left[k] -= 1;
                return Some(k);
            }
        }
    })
}

fn shared_bus(c: &Shared, cx: &mut Cx) -> Verdict {
    let mut hs = c.histories.clone();
    for i in 0..hs.len() {
        while hs[..i].iter().any(|h| h.addr == hs[i].addr) {
            hs[i].addr = 1 + hs[i].addr % 0x7F;
        }
    }
    let worlds = || -> Result<Vec<World>, String> {
        let ps = hs.iter().map(parts).collect::<Result<Vec<_>, _>>()?;
        let hub = Hub(Rc::new(ps.iter().map(|p| SimBus::new(p.dev.clone())).collect()));
        ps.into_iter()
            .enumerate()
            .map(|(i, p)| {
                let drv = driver_on(hub.clone(), p.cal.cam(), hs[i].addr, p.supplied())
                    .map_err(|e| format!("creating driver {i} on a shared bus: {e:?}"))?;
                Ok(p.world(hub.0[i].clone(), drv))
            })
            .collect()
    };
    let solo: Vec<Vec<Step>> = match hs.iter().map(alone).collect() {
        Ok(s) => s,
        // It does not work alone either.
        Err(_) => return Ok(()),
    };
    let mut ws = no_panic("creating drivers on a shared bus", worlds)??;
    let mut next = vec![0usize; hs.len()];
    let lens: Vec<usize> = solo.iter().map(Vec::len).collect();
    let (mut switches, mut last, mut images) = (0, usize::MAX, 0);
    for k in interleave(&lens, &c.order) {
        let i = next[k];
        next[k] += 1;
        let op = &hs[k].ops[i];
        let logs: Vec<usize> = ws.iter().map(|w| w.bus.0.borrow().log.len()).collect();
        let got = step(&mut ws[k], op).map_err(|m| format!("driver {k}, operation {i} ({op:?}): {m}"))?;
        let want = &solo[k][i];
        ensure!(got == *want, "driver {k}, operation {i} ({op:?}): {}", differs(&got, want));
        for (j, w) in ws.iter().enumerate() {
            ensure!(
                j == k || w.bus.0.borrow().log.len() == logs[j],
                "driver {k}, operation {i} ({op:?}): accessed the camera of driver {j}"
            );
        }
        switches += u64::from(last != k && last != usize::MAX);
        last = k;
        images += u64::from(is_image(op));
    }
    cx.add("switches", switches);
    cx.add("images", images);
    if switches > 1 && images > 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// A driver copied in the middle of its history; the copy goes its own way.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Copied {
    history: History,
    at: u8,
    copy_ops: Vec<Op>,
    order: Vec<u8>,
    /// The original ceases to exist when it has been copied.
    drop_original: bool,
}

fn copies(c: &Copied, cx: &mut Cx) -> Verdict {
    let h = &c.history;
    let k = usize::from(c.at) % (h.ops.len() + 1);
    let mut h2 = h.clone();
    h2.ops.truncate(k);
    h2.ops.extend(c.copy_ops.iter().cloned());
    let (Ok(one), Ok(two)) = (alone(h), alone(&h2)) else { return Ok(()) };
    if one.len() < k || two.len() < k {
        return Ok(());
    }
    let p = parts(h)?;
    let forks = Rc::new(RefCell::new(vec![]));
    let dev = SimBus::new(p.dev.clone());
    let bus = Fork { dev: dev.clone(), forks: forks.clone() };
    let drv = driver_on(bus, p.cal.cam(), h.addr, p.supplied()).map_err(|e| format!("creating the driver: {e:?}"))?;
    let mut w = p.world(dev, drv);
    for (i, op) in h.ops[..k].iter().enumerate() {
        let got = step(&mut w, op)?;
        ensure!(got == one[i], "operation {i} ({op:?}): {}", differs(&got, &one[i]));
    }
    let copy = no_panic("copying the driver", || w.drv.copy())?;
    let Some(dev2) = forks.borrow().last().cloned() else { return Err("the copy has no bus".into()) };
    let mut w2 = World { bus: dev2, drv: copy, cal: w.cal.clone(), rams: w.rams.clone(), dest: w.dest.clone() };
    let rest = if c.drop_original { 0 } else { one.len() - k };
    if c.drop_original {
        let p = parts(h)?;
        let Ok(other) = driver_on(SimBus::new(p.dev.clone()), p.cal.cam(), h.addr, p.supplied()) else { return Ok(()) };
        w.drv = other;
    }
    let mut next = [k, k];
    let mut images = 0;
    for who in interleave(&[rest, two.len() - k], &c.order) {
        let i = next[who];
        next[who] += 1;
        let (w, op, want, name) = match who {
            0 => (&mut w, &h.ops[i], &one[i], "the original"),
            _ => (&mut w2, &h2.ops[i], &two[i], "the copy"),
        };
        let got = step(w, op).map_err(|m| format!("{name}, operation {i} ({op:?}): {m}"))?;
        ensure!(got == *want, "{name}, operation {i} ({op:?}): {}", differs(&got, want));
        images += u64::from(who == 1 && is_image(op));
    }
    cx.add("images_of_copies", images);
    if k > 0 && images > 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// A driver whose calls come from different threads, one at a time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moved {
    history: History,
    /// Which calls (modulo the length) come from a thread of their own.
    elsewhere: Vec<bool>,
    /// Whether the driver is created in a thread of its own.
    created_elsewhere: bool,
}

/// Access from another thread while this one waits for it.
struct Lent<T>(T);
unsafe impl<T> Send for Lent<T> {}
impl<T> Lent<T> {
    fn take(self) -> T {
        self.0
    }
}

fn on_thread<R>(elsewhere: bool, f: impl FnOnce() -> R) -> R {
    if !elsewhere {
        return f();
    }
    let f = Lent(f);
    std::thread::scope(|s| s.spawn(move || Lent((f.take())())).join()).expect("the calls catch panics").take()
}

fn moved(c: &Moved, cx: &mut Cx) -> Verdict {
    let h = &c.history;
    let Ok(want) = alone(h) else { return Ok(()) };
    let p = parts(h)?;
    let bus = SimBus::new(p.dev.clone());
    let drv = on_thread(c.created_elsewhere, || {
        no_panic("creating the driver", || driver_on(bus.clone(), p.cal.cam(), h.addr, p.supplied()))
    })?
    .map_err(|e| format!("creating the driver: {e:?}"))?;
    let mut w = p.world(bus, drv);
    let (mut away, mut images) = (0, 0);
    for (i, (op, want)) in h.ops.iter().zip(&want).enumerate() {
        let elsewhere = c.elsewhere.get(i % c.elsewhere.len().max(1)).copied().unwrap_or(true);
        let got = on_thread(elsewhere, || step(&mut w, op)).map_err(|m| format!("operation {i} ({op:?}): {m}"))?;
        ensure!(
            got == *want,
            "operation {i} ({op:?}), with the driver used from several threads: {}",
            differs(&got, want)
        );
        away += u64::from(elsewhere);
        images += u64::from(is_image(op));
    }
    cx.add("calls_from_other_threads", away);
    cx.add("images", images);
    if away > 0 && images > 0 && (away as usize) < want.len() {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c30() -> Property {
    Property {
        id: "C30",
        assumptions: vec!["what a driver does alone is judged by the other properties"],
        families: vec![
            Box::new(Gen::<Shared> {
                name: "shared_bus",
                rule: "calls of different drivers alternated and produced images",
                quick: 24_000,
                thorough: 1_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 10 } else { 24 };
                    let h = history(small_cal(), frame_any(), ops(even_mix(false), n));
                    (proptest::collection::vec(h, 2..4), proptest::collection::vec(any::<u8>(), 0..48))
                        .prop_map(|(histories, order)| Shared { histories, order })
                        .boxed()
                },
                test: shared_bus,
            }),
            Box::new(Gen::<Copied> {
                name: "copies",
                rule: "the driver had a history when it was copied, and the copy produced images",
                quick: 48_000,
                thorough: 2_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 12 } else { 24 };
                    (
                        history(small_cal(), frame_any(), ops(even_mix(false), n)),
                        any::<u8>(),
                        ops(even_mix(false), 8),
                        proptest::collection::vec(any::<u8>(), 0..24),
                        any::<bool>(),
                    )
                        .prop_map(|(history, at, copy_ops, order, drop_original)| Copied {
                            history,
                            at,
                            copy_ops,
                            order,
                            drop_original,
                        })
                        .boxed()
                },
                test: copies,
            }),
            Box::new(Gen::<Moved> {
                name: "threads",
                rule: "calls came from several threads and produced images",
                quick: 4_000,
                thorough: 200_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 10 } else { 24 };
                    (
                        history(small_cal(), frame_any(), ops(even_mix(false), n)),
                        proptest::collection::vec(any::<bool>(), 0..8),
                        any::<bool>(),
                    )
                        .prop_map(|(history, elsewhere, created_elsewhere)| Moved { history, elsewhere, created_elsewhere })
                        .boxed()
                },
                test: moved,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C31

/// A camera looking at a scene that changes from frame to frame.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scene {
    cal: CalCase,
    over_bus: bool,
    control: u16,
    moments: Vec<Moment>,
    other: u32,
}

/// The settings changed before a frame, the state of the camera and the objects during it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moment {
    set_res: Option<u8>,
    set_pattern: Option<bool>,
    /// To a value, or to the default.
    set_emissivity: Option<Option<f32>>,
    set_reflected: Option<Option<f32>>,
    how: u8,
    v_dd: f32,
    t_a: f32,
    ptat: i16,
    gain: f32,
    cp: [i16; 2],
    subpage: u8,
    objects: Noise,
}

const K0: f64 = 273.15;

/// One frame as the camera would measure it: the physics, in the direction from the scene to the
/// words in RAM. Returns the tolerance per pixel, `None` where the word cannot hold the value.
struct Exposure {
    ram: Vec<u16>,
    t_a: f64,
    t_a_tol: f64,
    expected: Vec<Option<(f64, f64)>>,
}

fn expose(c: &Moment, cal: &Cal, a: AccessPattern, rc: f64, em: f64, reflected: Option<f32>, other: u64) -> Option<Exposure> {
    let s = usize::from(c.subpage % 2);
    let cam = cal.cam;
    let pat = usize::from(!ap_bit(a));
    let mut ram: Vec<u16> =
        (0..cam.ram_words()).map(|i| mixh(other, i as u64) as u16).collect();
    let word = |v: f64| (v.is_finite() && v.abs() < 32_000.0).then(|| v.round() as i16);
    let mut put = |a: u16, v: i16| ram[usize::from(a - RAM_BASE)] = v as u16;

    // Supply voltage: the nearest one the converter can express.
    let k_v = f64::from(cal.k_v_dd);
    let v25 = f64::from(cal.v_dd_25);
    let vdd_word = word(((f64::from(c.v_dd) - f64::from(cal.v_dd_0)) * k_v + v25) / rc)?;
    put(cam.a_vdd(), vdd_word);
    let v_dd = (rc * f64::from(vdd_word) - v25) / k_v + f64::from(cal.v_dd_0);
    let delta_v = (f64::from(vdd_word) - v25) / k_v;

    // Ambient temperature.
    let target = f64::from(c.t_a);
    let scale = 1.0 + cal.k_v_ptat.v * delta_v;
    let art = ((target - 25.0) * cal.k_t_ptat.v + cal.v_ptat_25.v) * scale;
    let ptat = f64::from(c.ptat);
    let vbe = word(ptat * 262_144.0 / art - ptat * cal.alpha_ptat.v)?;
    put(cam.a_ptat(), c.ptat);
    put(cam.a_vbe(), vbe);
    let denominator = ptat * cal.alpha_ptat.v + f64::from(vbe);
    let t_a_tol = (art / denominator / scale / cal.k_t_ptat.v).abs() * 0.51 + 0.004;
    if !(t_a_tol < 0.5) {
        return None;
    }

    // Gain and compensation pixel.
    let gain_word = word(cal.gain.v / f64::from(c.gain))?;
    if gain_word == 0 {
        return None;
    }
    put(cam.a_gain(), gain_word);
    put(cam.a_cp(0), c.cp[0]);
    put(cam.a_cp(1), c.cp[1]);
    let gain = cal.gain.v / f64::from(gain_word);

    let off = |o: i32, kta: f64, kv: f64| {
        f64::from(o) * (1.0 + kta * (target - 25.0)) * (1.0 + kv * (v_dd - 3.3))
    };
    let comp = |e: Option<crate::ev::Ev>| e.map_or(0.0, |e| e.v);
    // What the compensation pixel sees is not scaled with the scene's emissivity, all terms are.
    let tgc = cal.tgc.map_or(0.0, |t| t.v);
    let cp = f64::from(c.cp[s]) * gain + comp(cal.comp_cp[s][pat])
        - off(cal.offset_cp[s], cal.kta_cp[s].v, cal.kv_cp[s].v);
    let sens = 1.0 + cal.k_s_ta.v * (target - 25.0);
    let ks = cal.ks_to[cam.basic_range()].v;
    let a4 = (target + K0).powi(4);
    let t_r = reflected.map_or(target - cam.self_heating(), f64::from);
    let r4 = (t_r + K0).powi(4);
    let mut expected = vec![None; cam.pixels()];
    for p in 0..cam.pixels() {
        let slot = cam.ram_index(s, p);
        if !cam.member(s, a, p) {
            continue;
        }
        let t_o = f64::from(c.objects.at(p));
        let o4 = (t_o + K0).powi(4);
        let alpha = (cal.alpha[s][p].v - tgc * cal.alpha_cp[s].v) * sens;
        let slope = 1.0 + ks * t_o;
        if cal.failed[p] || alpha <= 1e-9 || slope < 0.3 {
            continue;
        }
        // Received: emitted and reflected radiation, less what the sensor itself emits.
        let received = alpha * slope * (em * o4 + (1.0 - em) * r4 - a4);
        let raw =
            (received + off(cal.offset[s][p], cal.kta[s][p].v, cal.kv[s][p].v) - comp(cal.comp[pat][p]) + tgc * cp) / gain;
        let Some(w) = word(raw) else { continue };
        ram[slot] = w as u16;
        // What the documented single correction step makes of a word, at a sensor temperature.
        let solved = |raw: f64, ta: f64| {
            let off = |o: i32, kta: f64, kv: f64| {
                f64::from(o) * (1.0 + kta * (ta - 25.0)) * (1.0 + kv * (v_dd - 3.3))
            };
            let cp = f64::from(c.cp[s]) * gain + comp(cal.comp_cp[s][pat])
                - off(cal.offset_cp[s], cal.kta_cp[s].v, cal.kv_cp[s].v);
            let v = raw * gain - off(cal.offset[s][p], cal.kta[s][p].v, cal.kv[s][p].v) + comp(cal.comp[pat][p])
                - tgc * cp;
            let alpha = (cal.alpha[s][p].v - tgc * cal.alpha_cp[s].v) * (1.0 + cal.k_s_ta.v * (ta - 25.0));
            let r4 = (reflected.map_or(ta - cam.self_heating(), f64::from) + K0).powi(4);
            let t_ar = r4 - (r4 - (ta + K0).powi(4)) / em;
            let seen = v / em / alpha;
            let apparent = (seen + t_ar).sqrt().sqrt() - K0;
            (seen / (1.0 + ks * apparent) + t_ar).sqrt().sqrt() - K0
        };
        // A word holds the radiation to half a count, the sensor temperature is known to what the
        // other words allow, and the correction step is an approximation.
        let exact = solved(raw, target);
        let mut spread = 0f64;
        for (r, t) in [(-0.6, 0.0), (0.6, 0.0), (0.0, -1.0), (0.0, 1.0)] {
            spread += (solved(raw + r, target + t * t_a_tol) - exact).abs() / 1.5;
        }
        let per_v = 1.0 / (alpha * slope * em * 4.0 * (t_o + K0).powi(3));
        let f32s = gain.abs() * raw.abs() + off(cal.offset[s][p], cal.kta[s][p].v, cal.kv[s][p].v).abs() + (tgc * cp).abs();
        let tol = (exact - t_o).abs() * 1.05 + spread + 0.01 + 1e-5 * f32s * per_v.abs();
        if tol.is_nan() {
            continue;
        }
        expected[p] = Some((t_o, tol));
    }
    Some(Exposure { ram, t_a: target, t_a_tol, expected })
}

fn scene(c: &Scene, cx: &mut Cx) -> Verdict {
    let cal = c.cal.build()?;
    let cam = cal.cam();
    let (reference, eeprom) = match &c.cal {
        CalCase::Eeprom(e) => (Cal::from_eeprom(cam, &e.words()), e.words()),
        CalCase::Custom(_) => (cal.reference(), vec![0; EEPROM_WORDS]),
    };
    let mut dev = Dev::new(cam, 0x33, eeprom);
    dev.control = c.control;
    let bus = SimBus::new(dev);
    let over_bus = c.over_bus && matches!(c.cal, CalCase::Eeprom(_));
    let made = no_panic("creating the driver", || driver_on(bus.clone(), cam, 0x33, (!over_bus).then_some(&cal)))?;
    let mut drv = made.map_err(|e| format!("creating the driver: {e:?}"))?;
    let fail = |e: DErr| format!("{e:?} on a working bus");
    let (mut res, mut pattern) = ((c.control & C_RES) >> 10, c.control & C_PATTERN != 0);
    let default_em = reference.emissivity.map_or(1.0, |e| e.v as f32);
    let (mut em, mut reflected) = (default_em, None);
    let mut image = vec![f32::NAN; cam.pixels()];
    let mut want: Vec<Option<(f64, f64)>> = vec![None; cam.pixels()];
    let mut checked = 0;
    for (f, m) in c.moments.iter().enumerate() {
        if let Some(r) = m.set_res {
            drv.set_resolution(RESOLUTIONS[usize::from(r % 4)]).map_err(fail)?;
            res = u16::from(r % 4);
        }
        if let Some(p) = m.set_pattern {
            drv.set_access_pattern(ap(p)).map_err(fail)?;
            pattern = p;
        }
        match m.set_emissivity {
            None => {}
            Some(Some(e)) => {
                drv.override_emissivity(e);
                em = e;
            }
            Some(None) => {
                drv.use_default_emissivity();
                em = default_em;
            }
        }
        if let Some(r) = m.set_reflected {
            drv.set_reflected_temperature(r);
            reflected = r;
        }
        let s = usize::from(m.subpage % 2);
        let rc = f64::from(res_correction(reference.res, res));
        let other = u64::from(c.other) << 20 | f as u64;
        let seen = (em > 0.15).then(|| expose(m, &reference, ap(pattern), rc, f64::from(em), reflected, other));
        let Some(x) = seen.flatten() else {
            cx.hit("inexpressible_frames");
            continue;
        };
        bus.0.borrow_mut().frame(Some(x.ram), s);
        match m.how % 4 {
            0 | 1 => {
                let got = no_panic("the call", || drv.image_if_ready(&mut image))?.map_err(fail)?;
                ensure!(got, "frame {f}: no new frame was reported");
            }
            2 => no_panic("the call", || drv.image_to(&mut image))?.map_err(fail)?,
            _ => no_panic("the call", || drv.image_subpage_to(sp(s), &mut image))?.map_err(fail)?,
        }
        let Some(t_a) = drv.ambient_temperature() else { return Err(format!("frame {f}: no ambient temperature")) };
        ensure!(
            (f64::from(t_a) - x.t_a).abs() <= x.t_a_tol,
            "frame {f}: ambient temperature is {t_a}, the camera is at {} (\u{b1}{:.3})",
            x.t_a,
            x.t_a_tol
        );
        for p in 0..cam.pixels() {
            if cam.member(s, ap(pattern), p) {
                want[p] = x.expected[p];
            }
        }
        for (p, w) in want.iter().enumerate() {
            let Some((t, tol)) = w else { continue };
            if *tol > 1.5 {
                cx.hit("coarse_pixels");
                continue;
            }
            ensure!(
                (f64::from(image[p]) - t).abs() <= *tol,
                "frame {f}, subpage {s}: pixel {p} is {}, the object is at {t} (\u{b1}{tol:.3})",
                image[p]
            );
            checked += 1;
            if *tol < 0.3 {
                cx.hit("pixels_within_0.3_K");
            }
        }
    }
    cx.add("pixels", checked);
    if checked as usize > cam.pixels() / 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn scene_strat() -> BoxedStrategy<Scene> {
    let cal = any_cam().prop_flat_map(|c| {
        prop_oneof![
            3 => eep_physical(c).prop_map(CalCase::Eeprom).boxed(),
            2 => syn(c).prop_map(CalCase::Custom).boxed(),
        ]
    });
    let objects = (
        prop_oneof![4 => fl(-20.0, 120.0), 1 => fl(-40.0, 300.0)],
        prop_oneof![1 => Just(0f32).boxed(), 3 => fl(0.0, 60.0)],
        any::<u32>(),
    )
        .prop_map(|(base, spread, seed)| Noise { base, spread: spread.min(base + 40.0), seed });
    let seldom = || proptest::bool::weighted(0.3);
    let em = prop_oneof![
        1 => Just(None).boxed(),
        1 => Just(Some(1.0)).boxed(),
        3 => fl(0.3, 1.0).prop_map(Some).boxed()
    ];
    let reflected = prop_oneof![1 => Just(None).boxed(), 1 => fl(-30.0, 60.0).prop_map(Some).boxed()];
    let moment = (
        (proptest::option::of(0u8..4), proptest::option::of(any::<bool>()), any::<u8>(), seldom(), seldom(), em, reflected),
        (fl(2.9, 3.6), fl(-20.0, 80.0), 1400i16..1900, fl(0.7, 1.4), [-150i16..150, -150i16..150]),
        (0u8..2, objects),
    )
        .prop_map(|((set_res, set_pattern, how, e, r, em, reflected), b, d)| Moment {
            set_res,
            set_pattern,
            set_emissivity: e.then_some(em),
            set_reflected: r.then_some(reflected),
            how,
            v_dd: b.0,
            t_a: b.1,
            ptat: b.2,
            gain: b.3,
            cp: b.4,
            subpage: d.0,
            objects: d.1,
        });
    (cal, any::<bool>(), any::<u16>(), proptest::collection::vec(moment, 1..5), any::<u32>())
        .prop_map(|(cal, over_bus, control, moments, other)| Scene { cal, over_bus, control, moments, other })
        .boxed()
}

pub fn c31() -> Property {
    Property {
        id: "C31",
        assumptions: vec![
            "the scene is one the camera's words can express (supply voltage, sensor temperature, radiation)",
            "objects are in the range for which the camera is calibrated without range corrections",
        ],
        families: vec![Box::new(Gen::<Scene> {
            name: "scene",
            rule: "more than half of the pixels were compared",
            quick: 48_000,
            thorough: 2_000_000,
            strat: |_| scene_strat(),
            test: scene,
        })],
    }
}

// ------------------------------------------------------------------ C32

fn shows_hex(text: &str, w: u16) -> bool {
    let t = text.to_lowercase();
    t.contains(&format!("{w:04x}"))
}

fn report(e: &Error<SimBus>) -> (String, String) {
    (format!("{e}"), format!("{e:?}"))
}

/// Every checksum word and its neighbourhood of bus error values.
fn error_values(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let w = i as u16;
    let lib = LibraryError::Checksum(w);
    ensure!(shows_hex(&format!("{lib}"), w), "the checksum error of {w:#06x} reads {:?}", format!("{lib}"));
    for other in [w ^ 1, !w] {
        ensure!(lib != LibraryError::Checksum(other), "checksum errors of {w:#06x} and {other:#06x} are equal");
    }
    ensure!(lib == LibraryError::Checksum(w) && lib.clone() == lib, "a checksum error is not equal to itself");
    ensure!(
        lib != LibraryError::InvalidData("x") && LibraryError::InvalidData("x") != LibraryError::Other("x"),
        "different kinds of error are equal"
    );
    let n = mixh(3, i) as u32;
    let cases: [Error<SimBus>; 3] =
        [Error::I2cWriteReadError(RdErr(n)), Error::I2cWriteError(WrErr(n)), Error::from(lib.clone())];
    for (k, e) in cases.iter().enumerate() {
        let (text, debug) = report(e);
        let Some(source) = e.source() else { return Err(format!("{debug} has no source")) };
        let (inner, right) = match k {
            0 => (format!("{:?}", RdErr(n)), source.downcast_ref::<RdErr>() == Some(&RdErr(n))),
            1 => (format!("{:?}", WrErr(n)), source.downcast_ref::<WrErr>() == Some(&WrErr(n))),
            _ => (format!("{lib:?}"), source.downcast_ref::<LibraryError>() == Some(&lib)),
        };
        ensure!(right, "the source of {debug} is {source:?}");
        let plain = format!("{source}");
        ensure!(
            text.contains(&inner) || text.contains(&plain),
            "{debug} reads {text:?}, which does not show its cause {inner} ({plain})"
        );
        ensure!(debug.contains(&inner), "the debug form {debug:?} does not show {inner}");
        for other in &cases[..k] {
            ensure!(report(other).1 != debug, "two kinds of error have the debug form {debug:?}");
        }
    }
    Ok(())
}

fn messages(i: u64, cx: &mut Cx) -> Verdict {
    const TEXTS: [&str; 5] = ["", "x", "the EEPROM is too short", "50% {} \"done\"", "größer als µ"];
    cx.nontrivial();
    let t = TEXTS[i as usize % TEXTS.len()];
    for lib in [LibraryError::InvalidData(t), LibraryError::Other(t)] {
        ensure!(format!("{lib}").contains(t), "{lib:?} reads {:?}", format!("{lib}"));
        let e: Error<SimBus> = lib.clone().into();
        ensure!(matches!(&e, Error::LibraryError(l) if *l == lib), "{lib:?} becomes {e:?}");
        let (text, _) = report(&e);
        ensure!(text.contains(t) || text.contains(&format!("{t:?}")), "{lib:?} reads {text:?}");
    }
    Ok(())
}

/// Loading a damaged EEPROM over the bus: the error names the word, all the way up.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    eep: Eep,
    word: u8,
    bits: (u8, u8),
    fault: Option<(u16, u32)>,
}

fn reported(c: &Damaged, cx: &mut Cx) -> Verdict {
    let mut words = c.eep.words();
    let i = 0x15 + usize::from(c.word) % (0x40 - 0x15);
    let (a, b) = (c.bits.0 % 16, c.bits.1 % 16);
    if a == b {
        return Ok(());
    }
    words[i] ^= 1 << a | 1 << b;
    let bad = words[i];
    let mut dev = Dev::new(Cam::M641, 0x21, words);
    if let Some((after, code)) = c.fault {
        dev.fault_in = Some(u32::from(after));
        dev.fault_code = code;
    }
    let bus = SimBus::new(dev);
    let r = no_panic("creating the driver", || mlx9064x::Mlx90641Driver::new(bus.clone(), 0x21))?;
    let Err(e) = r else { return Err(format!("a driver was created although word {bad:#06x} is damaged")) };
    let hit = bus.0.borrow().faults_hit > 0;
    let (text, debug) = report(&e);
    cx.nontrivial();
    let Some(source) = e.source() else { return Err(format!("{debug} has no source")) };
    if hit {
        let code = c.fault.map_or(0, |f| f.1);
        cx.hit("bus_errors");
        ensure!(source.downcast_ref::<RdErr>() == Some(&RdErr(code)), "bus error {code} is reported as {source:?}");
        ensure!(text.contains(&code.to_string()), "bus error {code} reads {text:?}");
    } else {
        cx.hit("checksum_errors");
        let want = LibraryError::Checksum(bad);
        ensure!(source.downcast_ref() == Some(&want), "{want:?} is reported as {source:?}");
        ensure!(
            text.contains(&format!("{want:?}")) || shows_hex(&text, bad),
            "{want:?} reads {text:?}"
        );
        ensure!(shows_hex(&format!("{source}"), bad), "the cause of {want:?} reads {:?}", format!("{source}"));
    }
    Ok(())
}

pub fn c32() -> Property {
    Property {
        id: "C32",
        assumptions: vec![],
        families: vec![
            Box::new(All {
                name: "values",
                rule: "every checksum word; a bus error value with each",
                total: |_| 65536,
                complete: |_| true,
                test: error_values,
            }),
            Box::new(All { name: "messages", rule: "every message", total: |_| 5, complete: |_| false, test: messages }),
            Box::new(Gen::<Damaged> {
                name: "reported",
                rule: "creating a driver failed for a damaged word or a bus error",
                quick: 40_000,
                thorough: 1_000_000,
                strat: |_| {
                    (
                        prop_oneof![eep_physical(Cam::M641), eep_wild(Cam::M641)],
                        any::<u8>(),
                        (0u8..16, 0u8..16),
                        proptest::option::of((0u16..6, any::<u32>())),
                    )
                        .prop_map(|(eep, word, bits, fault)| Damaged { eep, word, bits, fault })
                        .boxed()
                },
                test: reported,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C33

fn address(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let v = i as u16;
    let a = Address::new(v);
    ensure!(u16::from(a) == v && usize::from(a) == usize::from(v), "address {v:#06x} becomes {:#06x}", u16::from(a));
    ensure!(Address::from(v) == a, "two ways to make the address {v:#06x} differ");
    let debug = format!("{a:?}").to_lowercase();
    ensure!(debug.contains(&format!("{v:x}")), "address {v:#06x} reads {debug:?}");
    for o in [v.wrapping_add(1), v ^ 0x8000, !v, v.swap_bytes(), 0, 0x8000] {
        let b = Address::new(o);
        ensure!(
            a.cmp(&b) == v.cmp(&o) && a.partial_cmp(&b) == Some(v.cmp(&o)) && (a == b) == (v == o),
            "addresses {v:#06x} and {o:#06x} compare as {:?}",
            a.cmp(&b)
        );
    }
    macro_rules! ram {
        ($m:ident, $cam:expr) => {
            {
                let cam: Cam = $cam;
                type A = $m::RamAddress;
                let table = [
                    (A::Base, RAM_BASE),
                    (A::AmbientTemperatureVoltageBe, cam.a_vbe()),
                    (A::CompensationPixelZero, cam.a_cp(0)),
                    (A::Gain, cam.a_gain()),
                    (A::AmbientTemperatureVoltage, cam.a_ptat()),
                    (A::CompensationPixelOne, cam.a_cp(1)),
                    (A::PixelSupplyVoltage, cam.a_vdd()),
                    (A::End, cam.ram_end()),
                ];
                let want = table.iter().find(|t| t.1 == v).map(|t| t.0);
                let (x, y) = (A::try_from(v).ok(), A::try_from(a).ok());
                ensure!(x == want && y == want, "{cam:?}: {v:#06x} is {x:?} / {y:?}, expected {want:?}");
                if let Some(n) = want {
                    cx.hit("named");
                    ensure!(
                        u16::from(n) == v && Address::from(n) == a,
                        "{cam:?}: {n:?} becomes {:#06x}",
                        u16::from(n)
                    );
                    for (m, o) in table {
                        ensure!(n.cmp(&m) == v.cmp(&o) && (n == m) == (v == o), "{cam:?}: {n:?} and {m:?} compare as {:?}", n.cmp(&m));
                        let sums = [n + m, n + &m, &n + m, &n + &m];
                        ensure!(sums == [v + o; 4], "{cam:?}: the sums of {n:?} and {m:?} are {sums:x?}");
                        if v >= o {
                            let gaps = [n - m, n - &m, &n - m, &n - &m];
                            ensure!(gaps == [v - o; 4], "{cam:?}: the distances from {m:?} to {n:?} are {gaps:x?}");
                        }
                    }
                }
            }
        };
    }
    ram!(mlx90640, Cam::M640);
    ram!(mlx90641, Cam::M641);
    Ok(())
}

fn codes(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    // Every byte, and numbers whose low byte is one.
    let v = if i < 256 { i as usize } else { ((i - 256) as usize % 256) | 1 << (8 + (i - 256) / 256) };
    let want = (v < 2).then(|| sp(v));
    let got = Subpage::try_from(v).ok();
    ensure!(got == want, "subpage number {v} is {got:?}");
    if let Some(s) = got {
        ensure!(usize::from(s) == v, "{s:?} becomes {}", usize::from(s));
    }
    if let Ok(b) = u8::try_from(v) {
        let want = (b < 2).then(|| ap(b == 1));
        let got = AccessPattern::try_from(b).ok();
        ensure!(got == want, "access pattern number {b} is {got:?}");
        if let Some(p) = got {
            ensure!(u8::from(p) == b, "{p:?} becomes {}", u8::from(p));
        }
    }
    Ok(())
}

fn constants(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    fn model<C: MelexisCamera>(cam: Cam) -> Verdict {
        let got = [C::T_A_V_BE, C::T_A_PTAT, C::GAIN, C::V_DD_PIXEL, C::compensation_pixel(sp(0)), C::compensation_pixel(sp(1))]
            .map(u16::from);
        let want = [cam.a_vbe(), cam.a_ptat(), cam.a_gain(), cam.a_vdd(), cam.a_cp(0), cam.a_cp(1)];
        ensure!(got == want, "{cam:?}: the addresses are {got:x?}, expected {want:x?}");
        let got = (C::HEIGHT, C::WIDTH, C::NUM_PIXELS, C::BASIC_TEMPERATURE_RANGE, f64::from(C::SELF_HEATING));
        let want = (cam.height(), cam.width(), cam.pixels(), cam.basic_range(), cam.self_heating());
        ensure!(got == want, "{cam:?}: the constants are {got:?}, expected {want:?}");
        Ok(())
    }
    match i {
        0 => model::<Mlx90640>(Cam::M640),
        _ => model::<Mlx90641>(Cam::M641),
    }
}

pub fn c33() -> Property {
    Property {
        id: "C33",
        assumptions: vec![],
        families: vec![
            Box::new(All { name: "addresses", rule: "every 16-bit address", total: |_| 65536, complete: |_| true, test: address }),
            Box::new(All { name: "codes", rule: "every subpage and pattern number", total: |_| 256 + 256 * 48, complete: |_| true, test: codes }),
            Box::new(All { name: "constants", rule: "both camera models", total: |_| 2, complete: |_| true, test: constants }),
        ],
    }
}

// ------------------------------------------------------------------ C34

/// A way to take items from a sequence.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Take {
    Next(u8),
    Nth(u16),
    /// The next items through an adaptor borrowing the sequence.
    Some(u16),
    Position(u16),
}

/// What becomes of the rest.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rest {
    Collect,
    Count,
    Last,
    Fold,
    SkipStep(u16, u8),
    Zip,
    Compare,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Consumed {
    cal: CalCase,
    subpage: u8,
    chess: bool,
    takes: Vec<Take>,
    rest: Rest,
}

/// Takes items from one fresh sequence, comparing with the list of its items.
fn consume<I: Iterator>(what: &str, mut it: I, key: impl Fn(I::Item) -> u64, want: &[u64], c: &Consumed) -> Verdict {
    let n = want.len();
    let mut at = 0;
    let hint = |it: &I, at: usize| -> Verdict {
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= n - at && hi.is_none_or(|h| h >= n - at),
            "{what}: after {at} of {n} items the size hint is {lo}..{hi:?}"
        );
        Ok(())
    };
    let item = |got: Option<I::Item>, i: usize, how: &str| -> Verdict {
        let got = got.map(&key);
        ensure!(got == want.get(i).copied(), "{what}: item {i} of {n} is {got:x?} through {how}, expected {:x?}", want.get(i));
        Ok(())
    };
    hint(&it, at)?;
    for t in &c.takes {
        match *t {
            Take::Next(k) => {
                for _ in 0..k {
                    if at < n {
                        item(it.next(), at, "next()")?;
                        at += 1;
                    }
                }
            }
            Take::Nth(k) => {
                let i = at + usize::from(k);
                if i < n {
                    item(it.nth(usize::from(k)), i, "nth()")?;
                    at = i + 1;
                }
            }
            Take::Some(k) => {
                let k = usize::from(k).min(n - at);
                for (j, x) in it.by_ref().take(k).enumerate() {
                    item(Some(x), at + j, "take()")?;
                }
                at += k;
            }
            Take::Position(k) => {
                let i = at + usize::from(k);
                if i < n {
                    let mut left = usize::from(k);
                    let found = it.position(|_| {
                        left = left.wrapping_sub(1);
                        left == usize::MAX
                    });
                    ensure!(found == Some(usize::from(k)), "{what}: position() finds item {k} at {found:?}");
                    at = i + 1;
                }
            }
        }
        hint(&it, at)?;
    }
    let rest = &want[at..];
    match c.rest {
        Rest::Collect => {
            let got: Vec<u64> = it.take(4 * n + 4).map(key).collect();
            ensure!(got == rest, "{what}: {} items are left after {at} of {n}, or not the right ones", got.len());
        }
        Rest::Count => {
            let got = it.take(4 * n + 4).count();
            ensure!(got == rest.len(), "{what}: count() after {at} of {n} items is {got}");
        }
        Rest::Last => {
            let got = it.take(4 * n + 4).last().map(key);
            ensure!(got == rest.last().copied(), "{what}: last() after {at} of {n} items is {got:x?}");
        }
        Rest::Fold => {
            let got = it.fold(7, |h, x| mixh(h, key(x)));
            let expect = rest.iter().fold(7, |h, x| mixh(h, *x));
            ensure!(got == expect, "{what}: fold() after {at} of {n} items sees other items");
        }
        Rest::SkipStep(k, step) => {
            let (k, step) = (usize::from(k), usize::from(step).max(1));
            let got: Vec<u64> = it.skip(k).step_by(step).take(4 * n + 4).map(key).collect();
            let expect: Vec<u64> = rest.iter().copied().skip(k).step_by(step).collect();
            ensure!(got == expect, "{what}: skip({k}).step_by({step}) after {at} of {n} items differs");
        }
        Rest::Zip => {
            let got: Vec<(usize, u64)> = (0..4 * n + 4).zip(it).map(|(i, x)| (i, key(x))).collect();
            let expect: Vec<(usize, u64)> = rest.iter().copied().enumerate().collect();
            ensure!(got == expect, "{what}: zip() after {at} of {n} items differs");
        }
        Rest::Compare => {
            ensure!(it.map(key).eq(rest.iter().copied()), "{what}: eq() after {at} of {n} items differs");
        }
    }
    Ok(())
}

/// The items of a sequence, one next() at a time.
fn listed<I: Iterator>(what: &str, mut it: I, key: impl Fn(I::Item) -> u64, n: usize) -> Result<Vec<u64>, String> {
    let mut out = vec![];
    while let Some(x) = it.next() {
        out.push(key(x));
        ensure!(out.len() <= n, "{what} has more than {n} items");
    }
    Ok(out)
}

fn consumed(c: &Consumed, cx: &mut Cx) -> Verdict {
    let cal = c.cal.build()?;
    fn run<'a, C: CalibrationData<'a>>(k: &'a C, c: &Consumed) -> Verdict {
        let s = sp(usize::from(c.subpage % 2));
        let a = ap(c.chess);
        let n = C::Camera::NUM_PIXELS;
        let bits = |v: &f32| u64::from(v.to_bits());
        let opt = |v: Option<&f32>| v.map_or(1 << 40, |v| u64::from(v.to_bits()));
        macro_rules! seq {
            ($what:literal, $make:expr, $key:expr) => {
                let want = listed($what, $make, $key, n)?;
                consume($what, $make, $key, &want, c)?;
            };
        }
        seq!("offset_reference_pixels", k.offset_reference_pixels(s), |v| *v as u16 as u64);
        seq!("alpha_pixels", k.alpha_pixels(s), bits);
        seq!("k_v_pixels", k.k_v_pixels(s), bits);
        seq!("k_ta_pixels", k.k_ta_pixels(s), bits);
        seq!("access_pattern_compensation_pixels", k.access_pattern_compensation_pixels(a), opt);
        seq!("failed_pixels", k.failed_pixels().iter_flagged(), |i| i as u64);
        seq!("outlier_pixels", k.outlier_pixels().iter_flagged(), |i| i as u64);
        seq!("pixels_in_subpage", C::Camera::pixels_in_subpage(s, a).into_iter(), u64::from);
        let text = |r: mlx9064x::common::PixelAddressRange| {
            format!("{r:?}").bytes().fold(3, |h, b| mixh(h, u64::from(b)))
        };
        seq!("pixel_ranges", C::Camera::pixel_ranges(s, a).into_iter(), text);
        Ok(())
    }
    cx.add("sequences", 9);
    if !c.takes.is_empty() {
        cx.nontrivial();
    }
    match &cal {
        AnyCal::E640(k) => run(&**k, c),
        AnyCal::E641(k) => run(&**k, c),
        _ => Ok(()),
    }
}

pub fn c34() -> Property {
    Property {
        id: "C34",
        assumptions: vec!["nothing is asked of a sequence after its end"],
        families: vec![Box::new(Gen::<Consumed> {
            name: "sequences",
            rule: "some items were taken before the rest",
            quick: 48_000,
            thorough: 2_000_000,
            strat: |_| {
                let k = || prop_oneof![2 => 0u16..8, 2 => 0u16..70, 1 => 0u16..800];
                let take = prop_oneof![
                    (1u8..70).prop_map(Take::Next),
                    k().prop_map(Take::Nth),
                    k().prop_map(Take::Some),
                    k().prop_map(Take::Position),
                ];
                let rest = prop_oneof![
                    Just(Rest::Collect),
                    Just(Rest::Count),
                    Just(Rest::Last),
                    Just(Rest::Fold),
                    (k(), 1u8..70).prop_map(|(a, b)| Rest::SkipStep(a, b)),
                    Just(Rest::Zip),
                    Just(Rest::Compare),
                ];
                (eep_any(), 0u8..2, any::<bool>(), proptest::collection::vec(take, 0..6), rest)
                    .prop_map(|(e, subpage, chess, takes, rest)| Consumed {
                        cal: CalCase::Eeprom(e),
                        subpage,
                        chess,
                        takes,
                        rest,
                    })
                    .boxed()
            },
            test: consumed,
        })],
    }
}

// ------------------------------------------------------------------ C35

/// An image, and the same with some words changed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    eep: Eep,
    changes: Vec<(u16, u16)>,
}

fn equality(c: &Pair, cx: &mut Cx) -> Verdict {
    let cam = c.eep.cam;
    let w = c.eep.words();
    let mut v = w.clone();
    for (i, mask) in &c.changes {
        let i = 16 + usize::from(*i) % (w.len() - 16);
        v[i] = match cam {
            Cam::M640 => v[i] ^ mask,
            // A valid word again.
            Cam::M641 => hamming((v[i] ^ mask) & 0x7FF),
        };
    }
    let plausible = "plausible EEPROM refused";
    let (Ok(a), Ok(a2)) = (load(cam, &to_bytes(&w)), load(cam, &to_bytes(&w))) else { return Err(plausible.into()) };
    // The changed image may be implausible: not judged then.
    let b = match guarded_load(cam, &to_bytes(&v)) {
        Some(b) => b,
        None => return Ok(()),
    };
    fn judge<C: PartialEq + Clone + std::fmt::Debug>(
        x: [&C; 3],
        constants: impl Fn(&C) -> Vec<crate::dump::K>,
        cx: &mut Cx,
    ) -> Verdict {
        let [a, a2, b] = x;
        let (ka, kb) = (constants(a), constants(b));
        let nan = ka.iter().any(|k| *k != *k);
        ensure!(nan || a == a2, "two calibrations from the same image are not equal");
        let copy = a.clone();
        ensure!(nan || (copy == *a && *a == copy), "a copy of a calibration is not equal to it");
        let kc = constants(&copy);
        ensure!(
            kc.len() == ka.len() && kc.iter().zip(&ka).all(|(x, y)| bits(x) == bits(y)),
            "a copy of a calibration has other constants"
        );
        ensure!((a == b) == (b == a), "equality of calibrations is not symmetric");
        if ka != kb {
            cx.nontrivial();
            let i = ka.iter().zip(&kb).position(|(x, y)| x != y);
            ensure!(
                a != b,
                "calibrations that differ (value {i:?}: {:?} and {:?}) are equal",
                i.map(|i| ka[i]),
                i.map(|i| kb[i])
            );
        }
        Ok(())
    }
    match (&a, &a2, &b) {
        (AnyCal::E640(a), AnyCal::E640(a2), AnyCal::E640(b)) => judge([&**a, a2, b], |c| crate::dump::constants(c), cx),
        (AnyCal::E641(a), AnyCal::E641(a2), AnyCal::E641(b)) => judge([&**a, a2, b], |c| crate::dump::constants(c), cx),
        _ => Ok(()),
    }
}

fn bits(k: &crate::dump::K) -> u64 {
    match k {
        crate::dump::K::I(v) => u64::from(*v),
        crate::dump::K::F(v) => 1 << 32 | u64::from(v.to_bits()),
        crate::dump::K::N => 2 << 32,
    }
}

fn guarded_load(cam: Cam, bytes: &[u8]) -> Option<AnyCal> {
    no_panic("loading", || load(cam, bytes)).ok()?.ok()
}

pub fn c35() -> Property {
    Property {
        id: "C35",
        assumptions: vec!["calibrations holding not-a-number values are not equal to anything"],
        families: vec![Box::new(Gen::<Pair> {
            name: "pairs",
            rule: "the two calibrations have different constants",
            quick: 64_000,
            thorough: 2_000_000,
            strat: |_| {
                let mask = prop_oneof![
                    3 => (0u16..16).prop_map(|b| 1 << b),
                    1 => any::<u16>(),
                ];
                // Half of the changes hit the words every pixel depends on.
                let at = prop_oneof![0u16..48, any::<u16>()];
                (eep_any(), proptest::collection::vec((at, mask), 1..3))
                    .prop_map(|(eep, changes)| Pair { eep, changes })
                    .boxed()
            },
            test: equality,
        })],
    }
}
