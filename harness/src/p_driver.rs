//! C06, C18–C23, C26, C27, C29: the driver over histories, against a simulated camera.
use mlx9064x::common::{CalibrationData, FromI2C};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use embedded_hal::blocking::i2c;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::{AccessPattern, CameraDriver, Error, FrameRate, LibraryError, Resolution, Subpage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::device::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::p_calc::{lib_fused, lib_ir, pixel_bytes, Conv};
use crate::spec::*;
use crate::with_cal;

/// A float by its bits, so that every value survives JSON.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct F(pub u32);
impl F {
    pub fn of(v: f32) -> F {
        F(v.to_bits())
    }
    pub fn get(self) -> f32 {
        f32::from_bits(self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Overwrite(bool),
    Subpages(bool),
    Hold(bool),
    Repeat(bool),
    Select(u8),
    Rate(u8),
    Res(u8),
    Pattern(bool),
    Get(u8),
    Available,
    Last,
    Reset,
    Emis(F),
    DefaultEmis,
    Reflected(Option<F>),
    /// The camera completes a measurement: frame, subpage.
    Frame(u8, u8),
    IfReady,
    Image,
    ImageSub(u8),
    RawSub(u8),
    /// Number of polls until the measurement is complete; its frame and its subpage,
    /// with twice the way the camera treats the start bit.
    Sync(u32, u8, u8),
    /// The control register changes behind the driver's back (the camera was reset, or somebody else
    /// configured it); then a call that accesses it.
    Changed(u16, Box<Op>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    Sub(Subpage),
    MaybeSub(Option<Subpage>),
    Rate(FrameRate),
    Res(Resolution),
    Pat(AccessPattern),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub cal: CalCase,
    /// Let the driver load the calibration over the bus (EEPROM calibrations).
    pub over_bus: bool,
    pub addr: u8,
    pub status: u16,
    pub control: u16,
    pub frames: Vec<Frame>,
    pub dest: u32,
    pub extra: usize,
    pub ops: Vec<Op>,
}

pub fn is_image(op: &Op) -> bool {
    matches!(op, Op::IfReady | Op::Image | Op::ImageSub(_) | Op::RawSub(_))
}

pub fn apply(d: &mut dyn AnyDriver, op: &Op, dest: &mut [f32]) -> Result<Val, DErr> {
    let u = |r: Result<(), DErr>| r.map(|()| Val::Unit);
    let b = |r: Result<bool, DErr>| r.map(Val::Bool);
    match op {
        Op::Overwrite(v) => u(d.set_overwrite_enabled(*v)),
        Op::Subpages(v) => u(d.set_use_subpages(*v)),
        Op::Hold(v) => u(d.set_data_hold(*v)),
        Op::Repeat(v) => u(d.set_subpage_repeat(*v)),
        Op::Select(v) => u(d.set_subpage(sp(usize::from(*v % 2)))),
        Op::Rate(v) => u(d.set_frame_rate(RATES[usize::from(*v % 8)])),
        Op::Res(v) => u(d.set_resolution(RESOLUTIONS[usize::from(*v % 4)])),
        Op::Pattern(v) => u(d.set_access_pattern(ap(*v))),
        Op::Get(k) => match k % 8 {
            0 => b(d.overwrite_enabled()),
            1 => b(d.subpages_enabled()),
            2 => b(d.data_hold_enabled()),
            3 => b(d.subpage_repeat()),
            4 => d.selected_subpage().map(Val::Sub),
            5 => d.frame_rate().map(Val::Rate),
            6 => d.resolution().map(Val::Res),
            _ => d.access_pattern().map(Val::Pat),
        },
        Op::Available => d.data_available().map(Val::MaybeSub),
        Op::Last => d.last_measured_subpage().map(Val::Sub),
        Op::Reset => u(d.reset_data_available()),
        Op::Emis(v) => {
            d.override_emissivity(v.get());
            Ok(Val::Unit)
        }
        Op::DefaultEmis => {
            d.use_default_emissivity();
            Ok(Val::Unit)
        }
        Op::Reflected(v) => {
            d.set_reflected_temperature(v.map(F::get));
            Ok(Val::Unit)
        }
        Op::Frame(..) => Ok(Val::Unit),
        Op::IfReady => b(d.image_if_ready(dest)),
        Op::Image => u(d.image_to(dest)),
        Op::ImageSub(s) => u(d.image_subpage_to(sp(usize::from(*s % 2)), dest)),
        Op::RawSub(s) => u(d.raw_subpage_to(sp(usize::from(*s % 2)), dest)),
        Op::Sync(..) => u(d.synchronize()),
        Op::Changed(_, op) => apply(d, op, dest),
    }
}

/// What the register says about `Get(k)`.
fn get_want(k: u8, status: u16, control: u16) -> (u16, Val) {
    let c = |m: u16| (CONTROL, Val::Bool(control & m != 0));
    match k % 8 {
        0 => (STATUS, Val::Bool(status & S_OVERWRITE != 0)),
        1 => c(C_SUBPAGES),
        2 => c(C_HOLD),
        3 => c(C_REPEAT),
        4 => (CONTROL, Val::Sub(sp(usize::from(control & C_SUBPAGE != 0)))),
        5 => (CONTROL, Val::Rate(RATES[usize::from((control & C_RATE) >> 7)])),
        6 => (CONTROL, Val::Res(RESOLUTIONS[usize::from((control & C_RES) >> 10)])),
        _ => (CONTROL, Val::Pat(ap(control & C_PATTERN != 0))),
    }
}

/// Register, mask and value of a setter.
fn set_want(op: &Op) -> Option<(u16, u16, u16)> {
    let flag = |r: u16, m: u16, v: bool| Some((r, m, if v { m } else { 0 }));
    match op {
        Op::Overwrite(v) => flag(STATUS, S_OVERWRITE, *v),
        Op::Subpages(v) => flag(CONTROL, C_SUBPAGES, *v),
        Op::Hold(v) => flag(CONTROL, C_HOLD, *v),
        Op::Repeat(v) => flag(CONTROL, C_REPEAT, *v),
        Op::Select(v) => flag(CONTROL, C_SUBPAGE, v % 2 == 1),
        Op::Rate(v) => Some((CONTROL, C_RATE, u16::from(v % 8) << 7)),
        Op::Res(v) => Some((CONTROL, C_RES, u16::from(v % 4) << 10)),
        Op::Pattern(v) => flag(CONTROL, C_PATTERN, *v),
        _ => None,
    }
}

/// Which part of the behaviour a property is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum On {
    Image,
    Ready,
    Config,
    Bus,
    Sync,
    Settings,
    /// Nothing but panics.
    Alive,
}

pub struct World {
    pub bus: SimBus,
    pub drv: Box<dyn AnyDriver>,
    pub cal: AnyCal,
    pub rams: Vec<Vec<u16>>,
    pub dest: Vec<f32>,
}

/// What a history starts from, before there is a driver.
pub struct Parts {
    pub cal: AnyCal,
    pub dev: Dev,
    pub rams: Vec<Vec<u16>>,
    pub over_bus: bool,
    dest: Vec<f32>,
}

pub fn parts(h: &History) -> Result<Parts, String> {
    let cal = h.cal.build()?;
    let cam = cal.cam();
    let eeprom = match &h.cal {
        CalCase::Eeprom(e) => e.words(),
        CalCase::Custom(_) => (0..EEPROM_WORDS).map(|i| mixh(4, i as u64) as u16).collect(),
    };
    let mut dev = Dev::new(cam, h.addr, eeprom);
    let rams: Vec<Vec<u16>> = h.frames.iter().map(|f| f.ram(cam)).collect();
    if let Some(r) = rams.first() {
        dev.ram = r.clone();
    }
    dev.status = h.status;
    dev.control = h.control;
    let over_bus = h.over_bus && matches!(h.cal, CalCase::Eeprom(_));
    let n = cam.pixels() + h.extra;
    let dest = (0..n).map(|i| f32::from_bits(mixh(u64::from(h.dest), i as u64) as u32)).collect();
    Ok(Parts { cal, dev, rams, over_bus, dest })
}

impl Parts {
    /// The calibration to hand to the driver, unless it is to load it itself.
    pub fn supplied(&self) -> Option<&AnyCal> {
        (!self.over_bus).then_some(&self.cal)
    }
    pub fn world(self, bus: SimBus, drv: Box<dyn AnyDriver>) -> World {
        World { bus, drv, cal: self.cal, rams: self.rams, dest: self.dest }
    }
}

pub fn start(h: &History) -> Result<World, String> {
    let p = parts(h)?;
    let bus = SimBus::new(p.dev.clone());
    let drv = driver_on(bus.clone(), p.cal.cam(), h.addr, p.supplied())
        .map_err(|e| format!("creating the driver failed: {e:?}"))?;
    bus.0.borrow_mut().sealed = true;
    Ok(p.world(bus, drv))
}

impl World {
    /// The camera's side of an operation.
    pub fn prepare(&mut self, op: &Op) {
        let mut d = self.bus.0.borrow_mut();
        d.budget = 100_000;
        let ram = |f: u8| self.rams.get(usize::from(f) % self.rams.len().max(1)).cloned();
        match op {
            Op::Changed(v, _) => d.control = *v,
            Op::Frame(f, s) => d.frame(ram(*f), usize::from(*s % 2)),
            Op::Sync(p, f, s) => {
                d.on_start.clear();
                d.start_mode = *s / 2 % 4;
                d.on_start.push_back((*p, Pending { ram: ram(*f), s: usize::from(*s % 2) }));
            }
            _ => {}
        }
    }
}

fn near(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
        || !a.is_finite() && !b.is_finite()
        || (a - b).abs() <= 0.01 * (a.abs() + 273.0)
}

struct Ran {
    ops: u64,
    images: u64,
    nontrivial: bool,
}

/// What one operation left behind.
struct Snap {
    log: Vec<Tx>,
    breaches: Vec<String>,
    ram: Vec<u16>,
    status: u16,
    control: u16,
    starts: u32,
}

impl Snap {
    fn of(d: &Dev, log0: usize) -> Snap {
        Snap {
            log: d.log[log0..].to_vec(),
            breaches: d.breaches.clone(),
            ram: d.ram.clone(),
            status: d.status,
            control: d.control,
            starts: d.starts,
        }
    }
}

/// Run a history, judging only what `on` is about.
fn run(h: &History, on: On, cx: &mut Cx) -> Verdict {
    let made = no_panic("creating the driver", || start(h));
    let mut w = match made {
        Ok(Ok(w)) => w,
        Ok(Err(m)) | Err(m) => {
            // Only what creates drivers is to blame for that.
            return if matches!(on, On::Image | On::Bus | On::Alive) { Err(m) } else { Ok(()) };
        }
    };
    let cam = w.cal.cam();
    let n = cam.pixels();
    // The reference calibration comes from the EEPROM itself, if there is one.
    let (cal, skip) = match &h.cal {
        CalCase::Eeprom(e) if on == On::Image => {
            let c = Cal::from_eeprom(e.cam, &e.words());
            let f = c.failed.clone();
            (Some(c), f)
        }
        CalCase::Custom(_) if on == On::Image => (Some(w.cal.reference()), vec![]),
        _ => (None, vec![]),
    };
    let default_emissivity = match &cal {
        Some(c) => c.emissivity.map_or(1.0, |e| e.v as f32),
        None => with_cal!(&w.cal, c => c.emissivity()).unwrap_or(1.0),
    };
    let cal_res = match &cal {
        Some(c) => c.res,
        None => with_cal!(&w.cal, c => res_raw(c.resolution())),
    };
    let mut emissivity = default_emissivity;
    let mut reflected: Option<f32> = None;
    // Reference ambient temperature, and the one reported.
    let mut ambient: Option<(Option<crate::ev::Ev>, f32)> = None;
    let mut ran = Ran { ops: 0, images: 0, nontrivial: false };
    let mut tl = Tally::default();
    let mut synced = false;
    {
        let d = w.bus.0.borrow();
        if on == On::Bus {
            ensure!(d.breaches.is_empty(), "creating the driver: {}", d.breaches.join("; "));
            for t in &d.log {
                ensure!(matches!(t, Tx::Read(..)), "creating the driver performed {t:x?}");
            }
        }
    }

    for (i, op) in h.ops.iter().enumerate() {
        let at = |m: String| format!("operation {i} ({op:?}): {m}");
        macro_rules! expect {
            ($cat:expr, $c:expr, $($a:tt)*) => {
                if ($cat).contains(&on) && !($c) { return Err(at(format!($($a)*))); }
            };
        }
        w.prepare(op);
        let op = match op {
            Op::Changed(_, then) => {
                cx.hit("settings_changed_by_others");
                &**then
            }
            op => op,
        };
        let (log0, status0, control0, starts0) = {
            let d = w.bus.0.borrow();
            (d.log.len(), d.status, d.control, d.starts)
        };
        let before = w.dest.clone();
        let ambient0 = w.drv.ambient_temperature();
        let mine: &[On] = match op {
            Op::IfReady if synced => &[On::Ready, On::Sync],
            Op::IfReady | Op::Available | Op::Last | Op::Reset => &[On::Ready],
            Op::Image | Op::ImageSub(_) | Op::RawSub(_) => &[On::Image],
            Op::Sync(..) => &[On::Sync],
            Op::Emis(_) | Op::DefaultEmis | Op::Reflected(_) => &[On::Settings],
            Op::Frame(..) => &[],
            _ => &[On::Config],
        };
        let result = {
            let (drv, dest) = (&mut w.drv, &mut w.dest);
            no_panic("the call", || apply(&mut **drv, op, dest))
        };
        let result = match result {
            Ok(r) => r,
            Err(m) => {
                expect!([On::Alive], false, "{m}");
                if mine.contains(&on) || on == On::Image && is_image(op) {
                    return Err(at(m));
                }
                return Ok(());
            }
        };
        ran.ops += 1;
        let dev = Snap::of(&w.bus.0.borrow(), log0);
        let log = &dev.log[..];
        expect!([On::Bus], dev.breaches.is_empty(), "{}", dev.breaches.join("; "));
        let val = match result {
            Ok(v) => Some(v),
            Err(e) => {
                expect!(mine, false, "failed with {e:?} on a working bus");
                expect!([On::Image], !is_image(op), "failed with {e:?} on a working bus");
                None
            }
        };
        let writes: Vec<&Tx> = log.iter().filter(|t| matches!(t, Tx::Write(..))).collect();
        let status_reads = |t: &[Tx]| t.iter().all(|t| matches!(t, Tx::Read(STATUS, 1, true)));
        let unchanged = |a: &[f32], b: &[f32]| a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());

        // ---- settings held by the driver
        match op {
            Op::Emis(v) => emissivity = v.get(),
            Op::DefaultEmis => emissivity = default_emissivity,
            Op::Reflected(v) => reflected = v.map(F::get),
            _ => {}
        }
        if matches!(op, Op::Emis(_) | Op::DefaultEmis | Op::Reflected(_)) {
            expect!([On::Settings], log.is_empty(), "caused bus traffic: {log:x?}");
            ran.nontrivial |= on == On::Settings;
        }
        if on == On::Settings {
            let len = w.bus.0.borrow().log.len();
            let e = w.drv.effective_emissivity();
            let r = w.drv.reflected_temperature();
            let hw = (w.drv.height(), w.drv.width());
            let am = w.drv.ambient_temperature();
            let more = w.bus.0.borrow().log[len..].to_vec();
            expect!([on], more.is_empty(), "reading a setting caused bus traffic: {more:x?}");
            expect!([on], e.to_bits() == emissivity.to_bits(), "effective emissivity is {e}, expected {emissivity}");
            expect!(
                [on],
                r.map(f32::to_bits) == reflected.map(f32::to_bits),
                "reflected temperature is {r:?}, expected {reflected:?}"
            );
            expect!([on], hw == (cam.height(), cam.width()), "the image is {hw:?}");
            if !is_image(op) || val == Some(Val::Bool(false)) {
                expect!(
                    [on],
                    am.map(f32::to_bits) == ambient.map(|a| a.1.to_bits()),
                    "ambient temperature is {am:?}, expected {:?}",
                    ambient.map(|a| a.1)
                );
            }
        }

        // ---- settings held by the device
        if let Some((reg, mask, v)) = set_want(op) {
            let (old, new, other) = if reg == CONTROL {
                (control0, dev.control, (status0, dev.status))
            } else {
                (status0, dev.status, (control0, dev.control))
            };
            let want = old & !mask | v;
            expect!([On::Config], new == want, "register {reg:#06x} went from {old:#06x} to {new:#06x}, expected {want:#06x}");
            expect!([On::Config], other.0 == other.1, "the other register went from {:#06x} to {:#06x}", other.0, other.1);
            let reads = log.len() - writes.len();
            expect!(
                [On::Config],
                reads == 1 && matches!(log[0], Tx::Read(r, 1, true) if r == reg),
                "expected a single read of {reg:#06x}, got {log:x?}"
            );
            if want == old {
                expect!([On::Config], writes.is_empty(), "wrote although nothing changes: {log:x?}");
                cx.hit("setter_without_change");
            } else {
                expect!(
                    [On::Config],
                    writes.len() == 1 && *writes[0] == Tx::Write(reg, want, true),
                    "expected a single write of {want:#06x}, got {log:x?}"
                );
                cx.hit("setter_with_change");
                ran.nontrivial |= on == On::Config;
            }
        } else if !matches!(op, Op::Frame(..)) {
            // nothing else touches the control register
            expect!([On::Config], dev.control == control0, "the control register changed to {:#06x}", dev.control);
        }
        let single_read = |reg: u16| log.len() == 1 && log[0] == Tx::Read(reg, 1, true);
        match op {
            Op::Get(k) => {
                let (reg, want) = get_want(*k, status0, control0);
                if val.is_some() {
                    expect!([On::Config], val.as_ref() == Some(&want), "returned {val:?}, expected {want:?}");
                }
                expect!([On::Config], single_read(reg), "expected one read of {reg:#06x}, got {log:x?}");
            }
            Op::Available => {
                let want = (status0 & S_NEW != 0).then(|| sp(usize::from(status0 & 1)));
                expect!([On::Ready], val == Some(Val::MaybeSub(want)), "returned {val:?}, expected {want:?}");
                expect!([On::Ready], dev.status == status0, "changed the status to {:#06x}", dev.status);
                expect!([On::Ready, On::Config], single_read(STATUS), "expected one read of the status, got {log:x?}");
                if want.is_some() {
                    ran.nontrivial |= on == On::Ready;
                }
            }
            Op::Last => {
                let want = sp(usize::from(status0 & 1));
                expect!([On::Ready], val == Some(Val::Sub(want)), "returned {val:?}, expected {want:?}");
                expect!([On::Ready, On::Config], single_read(STATUS), "expected one read of the status, got {log:x?}");
            }
            Op::Reset => {
                let want = status0 & !S_NEW;
                expect!([On::Ready], dev.status == want, "status went from {status0:#06x} to {:#06x}", dev.status);
                expect!(
                    [On::Ready],
                    writes.iter().all(|t| **t == Tx::Write(STATUS, want, true)),
                    "expected to write {want:#06x} to the status, got {log:x?}"
                );
            }
            Op::Sync(polls, _, s) => {
                let want = status0 & !S_NEW | S_OVERWRITE | S_START;
                expect!([On::Sync], val == Some(Val::Unit), "returned {val:?}");
                let first = log.iter().position(|t| matches!(t, Tx::Write(..)));
                let Some(first) = first else {
                    expect!([On::Sync], false, "no measurement was started: {log:x?}");
                    return Ok(());
                };
                expect!(
                    [On::Sync],
                    writes.len() == 1 && *writes[0] == Tx::Write(STATUS, want, true),
                    "expected a single write of {want:#06x} to the status, got {:x?}",
                    writes
                );
                expect!(
                    [On::Sync],
                    status_reads(&log[..first]) && status_reads(&log[first + 1..]),
                    "did more than poll the status"
                );
                let polled = log.len() - first - 1;
                let expected = (*polls).max(1) as usize;
                expect!(
                    [On::Sync],
                    polled == expected,
                    "returned after {polled} polls, new data was reported in poll {expected}"
                );
                expect!([On::Sync], dev.starts == starts0 + 1, "{} measurements started", dev.starts - starts0);
                let kept = if *s / 2 % 4 == 3 { S_START } else { 0 };
                let end = want & !S_START & !7 | kept | S_NEW | u16::from(*s % 2);
                expect!([On::Sync], dev.status == end, "the status is {:#06x}, expected {end:#06x}", dev.status);
                expect!([On::Sync], unchanged(&before, &w.dest), "image data changed");
                ran.nontrivial |= on == On::Sync;
                cx.hit("synchronizations");
            }
            _ => {}
        }

        // ---- images
        if is_image(op) {
            let s = match op {
                Op::ImageSub(s) | Op::RawSub(s) => usize::from(*s % 2),
                _ => usize::from(status0 & 1),
            };
            let delivered = match op {
                Op::IfReady => status0 & S_NEW != 0,
                _ => true,
            };
            let about = [On::Ready, On::Sync];
            if *op == Op::IfReady {
                let about: &[On] = if synced { &about } else { &about[..1] };
                expect!(about, val == Some(Val::Bool(delivered)), "returned {val:?} with status {status0:#06x}");
                if delivered {
                    let want = status0 & !S_NEW;
                    expect!(about, dev.status == want, "status went from {status0:#06x} to {:#06x}", dev.status);
                    expect!(
                        about,
                        writes.len() == 1 && *writes[0] == Tx::Write(STATUS, want, true),
                        "expected a single write of {want:#06x} to the status, got {writes:x?}"
                    );
                    expect!(
                        about,
                        matches!(log.last(), Some(Tx::Write(..))),
                        "read on after acknowledging the frame: {log:x?}"
                    );
                    ran.nontrivial |= on == On::Ready;
                    cx.hit("frames_delivered");
                } else {
                    expect!([On::Ready], status_reads(log), "did more than read the status: {log:x?}");
                    expect!([On::Ready], unchanged(&before, &w.dest), "the destination changed without new data");
                    expect!(
                        [On::Ready],
                        ambient0.map(f32::to_bits) == w.drv.ambient_temperature().map(f32::to_bits),
                        "the ambient temperature changed without new data"
                    );
                    cx.hit("no_new_data");
                }
            } else {
                expect!([On::Ready], writes.is_empty(), "an unconditional image call wrote {writes:x?}");
                expect!([On::Ready], dev.status == status0, "status changed to {:#06x}", dev.status);
            }
            if delivered {
                let shot = Shot {
                    ram: &dev.ram,
                    s,
                    ap: ap(dev.control & C_PATTERN != 0),
                    rc: res_correction(cal_res, (dev.control & C_RES) >> 10),
                    emissivity,
                    reflected,
                };
                let raw = matches!(op, Op::RawSub(_));
                let t_a = w.drv.ambient_temperature();
                if let Some(c) = &cal {
                    let want = image(c, &shot, !raw);
                    compare("image", &want, &before, &w.dest, &skip, &mut tl).map_err(at)?;
                    let Some(t_a) = t_a else { return Err(at("no ambient temperature after an image".into())) };
                    same("ambient temperature", want.t_a, t_a).map_err(at)?;
                    ambient = Some((Some(want.t_a), t_a));
                    ran.nontrivial |= tl.decided > 0;
                } else if matches!(on, On::Ready | On::Sync | On::Settings) {
                    // The library's own conversion says what that frame looks like.
                    let conv = Conv {
                        cal: h.cal.clone(),
                        frame: h.frames[0].clone(),
                        s: s as u8,
                        chess: ap_bit(shot.ap),
                        rc: shot.rc,
                        emissivity,
                        reflected,
                        dest: 0,
                        extra: 0,
                    };
                    let bytes = pixel_bytes(cam, &dev.ram, s);
                    let mut d = before.clone();
                    let convert = if raw { lib_ir } else { lib_fused };
                    let want_ta = convert(&w.cal, &conv, &bytes, &shot.aux(cam), &mut d);
                    expect!(
                        [On::Settings],
                        t_a.is_some_and(|t| near(t, want_ta)),
                        "ambient temperature is {t_a:?}, the image's is {want_ta}"
                    );
                    if *op == Op::IfReady {
                        for p in 0..n {
                            let member = cam.member(s, shot.ap, p);
                            expect!(
                                mine,
                                if member { near(d[p], w.dest[p]) } else { before[p].to_bits() == w.dest[p].to_bits() },
                                "pixel {p} is {} instead of the new frame's {}",
                                w.dest[p],
                                d[p]
                            );
                        }
                    }
                    if let Some(t) = t_a {
                        ambient = Some((None, t));
                    }
                } else if let Some(t) = t_a {
                    ambient = Some((None, t));
                }
                ran.images += 1;
            }
        }
        if on == On::Image && !is_image(op) {
            // The last image's ambient temperature stays available.
            let t = w.drv.ambient_temperature();
            ensure!(
                t.map(f32::to_bits) == ambient.map(|a| a.1.to_bits()),
                "{}",
                at(format!("ambient temperature became {t:?}"))
            );
        }
        synced = matches!(op, Op::Sync(..));
    }
    cx.add("operations", ran.ops);
    cx.add("images", ran.images);
    cx.add("pixels_compared", tl.decided);
    cx.add("pixels_ill_conditioned", tl.unknown);
    cx.add("pixels_undefined", tl.undefined);
    if ran.nontrivial || matches!(on, On::Bus | On::Alive) && ran.ops > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ generators

pub fn setting() -> BoxedStrategy<Op> {
    prop_oneof![
        any::<bool>().prop_map(Op::Overwrite),
        any::<bool>().prop_map(Op::Subpages),
        any::<bool>().prop_map(Op::Hold),
        any::<bool>().prop_map(Op::Repeat),
        (0u8..2).prop_map(Op::Select),
        (0u8..8).prop_map(Op::Rate),
        (0u8..4).prop_map(Op::Res),
        any::<bool>().prop_map(Op::Pattern),
    ]
    .boxed()
}

pub fn getting() -> BoxedStrategy<Op> {
    prop_oneof![
        8 => (0u8..8).prop_map(Op::Get),
        1 => Just(Op::Available),
        1 => Just(Op::Last),
    ]
    .boxed()
}

pub fn local(wild: bool) -> BoxedStrategy<Op> {
    let e = if wild {
        prop_oneof![2 => emissivity().prop_map(F::of), 1 => odd().prop_map(F::of)].boxed()
    } else {
        emissivity().prop_map(F::of).boxed()
    };
    let r = if wild {
        prop_oneof![
            2 => reflected().prop_map(|r| r.map(F::of)),
            1 => odd().prop_map(|v| Some(F::of(v)))
        ]
        .boxed()
    } else {
        reflected().prop_map(|r| r.map(F::of)).boxed()
    };
    prop_oneof![3 => e.prop_map(Op::Emis), 2 => Just(Op::DefaultEmis), 3 => r.prop_map(Op::Reflected)].boxed()
}

fn changed() -> BoxedStrategy<Op> {
    let then = prop_oneof![
        1 => (1u8..8).prop_map(Op::Get),
        1 => setting().prop_filter("in the control register", |s| !matches!(s, Op::Overwrite(_))),
    ];
    (control(), then).prop_map(|(v, op)| Op::Changed(v, Box::new(op))).boxed()
}

fn frame_op() -> BoxedStrategy<Op> {
    (any::<u8>(), 0u8..2).prop_map(|(f, s)| Op::Frame(f, s)).boxed()
}

pub fn image_op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => Just(Op::IfReady),
        1 => Just(Op::Image),
        2 => (0u8..2).prop_map(Op::ImageSub),
        2 => (0u8..2).prop_map(Op::RawSub),
    ]
    .boxed()
}

pub fn sync_op() -> BoxedStrategy<Op> {
    (prop_oneof![100 => 1u32..6, 24 => 1u32..300, 1 => 300u32..70_000], any::<u8>(), 0u8..8).prop_map(|(p, f, s)| Op::Sync(p, f, s)).boxed()
}

fn control() -> BoxedStrategy<u16> {
    prop_oneof![1 => proptest::sample::select(&[0x1901u16, 0x0901][..]), 3 => any::<u16>()].boxed()
}

pub struct Mix {
    setting: u32,
    getting: u32,
    local: u32,
    frame: u32,
    image: u32,
    if_ready: u32,
    reset: u32,
    sync: u32,
    changed: u32,
    wild: bool,
}

pub fn ops(m: Mix, len: usize) -> BoxedStrategy<Vec<Op>> {
    ops_between(m, 1, len)
}

pub fn ops_between(m: Mix, min: usize, len: usize) -> BoxedStrategy<Vec<Op>> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (m.setting, setting()),
        (m.getting, getting()),
        (m.local, local(m.wild)),
        (m.frame, frame_op()),
        (m.image, image_op()),
        (m.if_ready, Just(Op::IfReady).boxed()),
        (m.reset, Just(Op::Reset).boxed()),
        (m.sync, sync_op()),
        (m.changed, changed()),
    ];
    v.retain(|x| x.0 > 0);
    proptest::collection::vec(proptest::strategy::Union::new_weighted(v), min..len).boxed()
}

/// Histories long enough for counters to wrap.
fn long(m: Mix) -> BoxedStrategy<Vec<Op>> {
    ops_between(m, 250, 600)
}

/// Frames of which the later ones may share words with the one before, down to a single word that is
/// different: what a driver keeps between frames has to be renewed for every word it depends on.
fn related(frame: BoxedStrategy<Frame>) -> BoxedStrategy<Vec<Frame>> {
    let shared = prop_oneof![
        3 => Just(0u8),
        1 => any::<u8>(),
        2 => (0u32..7).prop_map(|k| !(1u8 << k)),
    ];
    proptest::collection::vec((frame, shared), 1..4)
        .prop_map(|v| {
            let mut out: Vec<Frame> = vec![];
            for (mut f, m) in v {
                if let Some(p) = out.last() {
                    let words = [
                        (&mut f.vbe, p.vbe),
                        (&mut f.ptat, p.ptat),
                        (&mut f.vdd, p.vdd),
                        (&mut f.gain, p.gain),
                        (&mut f.cp[0], p.cp[0]),
                    ];
                    for (k, (w, old)) in words.into_iter().enumerate() {
                        if m >> k & 1 == 1 {
                            *w = old;
                        }
                    }
                    if m >> 5 & 1 == 1 {
                        f.cp[1] = p.cp[1];
                    }
                    if m >> 6 & 1 == 1 {
                        f.pix = p.pix.clone();
                    } else if m == !(1 << 6) && m.count_ones() == 7 {
                        // a few pixels differ
                        let set = std::mem::take(&mut f.pix.set);
                        f.pix = p.pix.clone();
                        f.pix.set.extend(set);
                    }
                    if m >> 7 == 1 {
                        f.other = p.other;
                    }
                }
                out.push(f);
            }
            out
        })
        .boxed()
}

pub fn history(
    cal: BoxedStrategy<CalCase>,
    frame: BoxedStrategy<Frame>,
    ops: BoxedStrategy<Vec<Op>>,
) -> BoxedStrategy<History> {
    (
        cal,
        any::<bool>(),
        1u8..0x80,
        any::<u16>(),
        control(),
        related(frame),
        any::<u32>(),
        extra(),
        ops,
    )
        .prop_map(|(cal, over_bus, addr, status, control, frames, dest, extra, ops)| History {
            cal,
            over_bus,
            addr,
            status,
            control,
            frames,
            dest,
            extra,
            ops,
        })
        .boxed()
}

pub fn eeprom_cal() -> BoxedStrategy<CalCase> {
    any_cam()
        .prop_flat_map(|c| prop_oneof![5 => eep_physical(c), 1 => eep_wild(c)])
        .prop_map(CalCase::Eeprom)
        .boxed()
}

fn custom_cal() -> BoxedStrategy<CalCase> {
    any_cam().prop_flat_map(syn).prop_map(CalCase::Custom).boxed()
}

pub fn small_cal() -> BoxedStrategy<CalCase> {
    prop_oneof![1 => eeprom_cal(), 2 => custom_cal()].boxed()
}

pub fn image_mix() -> Mix {
    Mix { setting: 5, getting: 1, local: 3, frame: 4, image: 8, if_ready: 2, reset: 1, sync: 1, changed: 1, wild: false }
}

pub fn even_mix(wild: bool) -> Mix {
    Mix { setting: 4, getting: 3, local: 2, frame: 3, image: 4, if_ready: 3, reset: 1, sync: 2, changed: 1, wild }
}

pub fn ready_mix() -> Mix {
    Mix { setting: 2, getting: 3, local: 1, frame: 6, image: 2, if_ready: 7, reset: 2, sync: 1, changed: 1, wild: false }
}

pub fn config_mix() -> Mix {
    Mix { setting: 12, getting: 8, local: 1, frame: 1, image: 1, if_ready: 1, reset: 1, sync: 1, changed: 2, wild: false }
}

pub fn sync_mix() -> Mix {
    Mix { setting: 2, getting: 1, local: 1, frame: 3, image: 1, if_ready: 3, reset: 1, sync: 8, changed: 0, wild: false }
}

pub fn local_mix() -> Mix {
    Mix { setting: 2, getting: 1, local: 10, frame: 3, image: 3, if_ready: 3, reset: 1, sync: 1, changed: 1, wild: true }
}

// ------------------------------------------------------------------ properties

pub fn c18() -> Property {
    Property {
        id: "C18",
        assumptions: vec![
            "the device's registers change only through the driver and through completed measurements",
            "failed pixels and pixels within rounding of a singularity are not compared",
        ],
        families: vec![
            Box::new(Gen::<History> {
            name: "history",
            rule: "at least one pixel of one image was well-conditioned and compared",
            quick: 96_000,
            thorough: 4_000_000,
            strat: |t| {
                let n = if t == Tier::Quick { 14 } else { 30 };
                history(eeprom_cal(), frame_any(), ops(image_mix(), n))
            },
            test: |h, cx| run(h, On::Image, cx),
        }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one pixel of one image was well-conditioned and compared",
                quick: 600,
                thorough: 30_000,
                strat: |_| history(eeprom_cal(), frame_any(), long(image_mix())),
                test: |h, cx| run(h, On::Image, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Images),
            crate::p_race::family(crate::p_race::Raced::Images),
        ],
    }
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        assumptions: vec!["whether the right frame is delivered is judged by the library's own conversion functions"],
        families: vec![
            Box::new(Gen::<History> {
            name: "history",
            rule: "at least one new frame was delivered or reported",
            quick: 96_000,
            thorough: 4_000_000,
            strat: |t| {
                let n = if t == Tier::Quick { 16 } else { 40 };
                let m = ready_mix();
                history(small_cal(), frame_any(), ops(m, n))
            },
            test: |h, cx| run(h, On::Ready, cx),
        }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one new frame was delivered or reported",
                quick: 600,
                thorough: 30_000,
                strat: |_| history(small_cal(), frame_any(), long(ready_mix())),
                test: |h, cx| run(h, On::Ready, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Frames),
            crate::p_race::family(crate::p_race::Raced::Frames),
        ],
    }
}

/// One setter or getter from one register state.
fn one_setting(i: u64, cx: &mut Cx) -> Verdict {
    // operations: 2*5 flags + 2 + 8 + 4 setters, 8 getters
    let list: Vec<Op> = [false, true]
        .iter()
        .flat_map(|b| [Op::Overwrite(*b), Op::Subpages(*b), Op::Hold(*b), Op::Repeat(*b), Op::Pattern(*b)])
        .chain((0..2).map(Op::Select))
        .chain((0..8).map(Op::Rate))
        .chain((0..4).map(Op::Res))
        .chain((0..8).map(Op::Get))
        .collect();
    let k = (i % list.len() as u64) as usize;
    let reg = (i / list.len() as u64) as u16;
    thread_local! {
        static CAL: CalCase = CalCase::Custom(Syn {
            cam: Cam::M641, k_v_dd: -3000, v_dd_25: -13000, res: 2, v_dd_0: 3.3, k_v_ptat: 0.004, k_t_ptat: 42.0,
            v_ptat_25: 12000.0, alpha_ptat: 9.0, gain: 6000.0, k_s_ta: -0.002,
            ks_to: Noise { base: -0.0005, spread: 0.0, seed: 0 }, emissivity: None, tgc: None,
            offset: Noise { base: -50.0, spread: 0.0, seed: 0 }, alpha: Noise { base: 1e-7, spread: 0.0, seed: 0 },
            kv: Noise { base: 0.3, spread: 0.0, seed: 0 }, kta: Noise { base: 0.005, spread: 0.0, seed: 0 },
            comp: [None, None], comp_cp: [[None; 2]; 2], offset_cp: [0, 0], alpha_cp: [1e-9; 2], kv_cp: [0.3; 2], kta_cp: [0.004; 2],
        });
    }
    let h = History {
        cal: CAL.with(Clone::clone),
        over_bus: false,
        addr: 0x33,
        status: reg,
        control: reg,
        frames: vec![],
        dest: 1,
        extra: 0,
        ops: vec![list[k].clone()],
    };
    run(&h, On::Config, cx)?;
    if k >= list.len() - 8 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        assumptions: vec!["the device's registers change only through the driver and through completed measurements"],
        families: vec![
            Box::new(All {
                name: "every_register_state",
                rule: "every setter value and getter from every 16-bit register value; non-trivial unless the setter changes nothing",
                total: |_| 65536 * 32,
                complete: |_| true,
                test: one_setting,
            }),
            Box::new(Gen::<History> {
                name: "history",
                rule: "at least one setter changed something",
                quick: 80_000,
                thorough: 4_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 30 } else { 60 };
                    let m = config_mix();
                    history(custom_cal(), frame_physical(), ops(m, n))
                },
                test: |h, cx| run(h, On::Config, cx),
            }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one setter changed something",
                quick: 600,
                thorough: 30_000,
                strat: |_| history(custom_cal(), frame_physical(), long(config_mix())),
                test: |h, cx| run(h, On::Config, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Settings),
        ],
    }
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        assumptions: vec![],
        families: vec![
            Box::new(Gen::<History> {
                name: "history",
                rule: "at least one operation ran",
                quick: 96_000,
                thorough: 4_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 20 } else { 50 };
                    history(prop_oneof![eeprom_cal(), custom_cal()].boxed(), frame_any(), ops(even_mix(false), n))
                },
                test: |h, cx| run(h, On::Bus, cx),
            }),
            Box::new(Gen::<FaultCase> {
                name: "faults",
                rule: "at least one transaction failed",
                quick: 32_000,
                thorough: 1_200_000,
                strat: |_| fault_strat(),
                test: fault_discipline,
            }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one operation ran",
                quick: 600,
                thorough: 30_000,
                strat: |_| history(small_cal(), frame_any(), long(even_mix(false))),
                test: |h, cx| run(h, On::Bus, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Bus),
        ],
    }
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        assumptions: vec!["the camera eventually completes the measurement it was told to start"],
        families: vec![
            Box::new(Gen::<History> {
            name: "history",
            rule: "at least one synchronization was performed",
            quick: 96_000,
            thorough: 3_200_000,
            strat: |t| {
                let n = if t == Tier::Quick { 10 } else { 24 };
                let m = sync_mix();
                history(custom_cal(), frame_physical(), ops(m, n))
            },
            test: |h, cx| run(h, On::Sync, cx),
        }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one synchronization was performed",
                quick: 300,
                thorough: 30_000,
                strat: |_| history(custom_cal(), frame_physical(), long(sync_mix())),
                test: |h, cx| run(h, On::Sync, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Syncs),
            crate::p_race::family(crate::p_race::Raced::Syncs),
        ],
    }
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        assumptions: vec!["the ambient temperature of an image is the one the library's conversion functions return for it"],
        families: vec![
            Box::new(Gen::<History> {
            name: "history",
            rule: "at least one processing setting was changed",
            quick: 96_000,
            thorough: 4_000_000,
            strat: |t| {
                let n = if t == Tier::Quick { 20 } else { 50 };
                let m = local_mix();
                history(small_cal(), frame_any(), ops(m, n))
            },
            test: |h, cx| run(h, On::Settings, cx),
        }),
            Box::new(Gen::<History> {
                name: "long_history",
                rule: "at least one processing setting was changed",
                quick: 600,
                thorough: 30_000,
                strat: |_| history(small_cal(), frame_any(), long(local_mix())),
                test: |h, cx| run(h, On::Settings, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Locals),
        ],
    }
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    after: u8,
    code: u32,
    fill: u16,
    /// Look at the device's state through an image before repeating the call.
    probe: Option<u8>,
    /// Give the call up instead of repeating it.
    #[serde(default)]
    give_up: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    history: History,
    /// Per operation, the faults of its first attempts.
    faults: Vec<Vec<Fault>>,
}

fn fault_strat() -> BoxedStrategy<FaultCase> {
    let f = (prop_oneof![4 => 0u8..4, 2 => 0u8..20, 1 => 0u8..40], any::<u32>(), 0u16..1600, proptest::option::of(0u8..4), proptest::bool::weighted(0.4))
        .prop_map(|(after, code, fill, probe, give_up)| Fault { after, code, fill, probe, give_up });
    let faults = proptest::collection::vec(
        prop_oneof![2 => Just(vec![]).boxed(), 3 => proptest::collection::vec(f, 1..3).boxed()],
        0..12,
    );
    let m = Mix { setting: 6, getting: 2, local: 1, frame: 4, image: 5, if_ready: 5, reset: 2, sync: 2, changed: 0, wild: false };
    (history(small_cal(), frame_physical(), ops(m, 12)), faults)
        .prop_map(|(history, faults)| FaultCase { history, faults })
        .boxed()
}

fn bits_of(d: &[f32]) -> Vec<u32> {
    d.iter().map(|v| v.to_bits()).collect()
}

/// Bus faults never lead the driver to use the bus in undocumented ways.
fn fault_discipline(c: &FaultCase, cx: &mut Cx) -> Verdict {
    let Ok(Ok(mut w)) = no_panic("creating the driver", || start(&c.history)) else { return Ok(()) };
    for (i, op) in c.history.ops.iter().enumerate() {
        for k in 0..=c.faults.get(i).map_or(0, Vec::len) {
            w.prepare(op);
            if let Some(f) = c.faults.get(i).and_then(|f| f.get(k)) {
                let mut d = w.bus.0.borrow_mut();
                d.fault_in = Some(u32::from(f.after));
                d.fault_code = f.code;
                d.fault_fill = usize::from(f.fill);
            }
            let (drv, dest) = (&mut w.drv, &mut w.dest);
            if no_panic("the call", || apply(&mut **drv, op, dest)).is_err() {
                return Ok(());
            }
            w.bus.0.borrow_mut().fault_in = None;
        }
        let d = w.bus.0.borrow();
        ensure!(d.breaches.is_empty(), "operation {i} ({op:?}): {}", d.breaches.join("; "));
    }
    if w.bus.0.borrow().faults_hit > 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// The history with faults and repeated calls, next to the same history without faults.
fn fault_case(c: &FaultCase, cx: &mut Cx) -> Verdict {
    let h = &c.history;
    let (a, b) = (no_panic("start", || start(h)), no_panic("start", || start(h)));
    let (Ok(Ok(mut w)), Ok(Ok(mut twin))) = (a, b) else { return Ok(()) };
    let settings = |w: &World| {
        (
            w.drv.effective_emissivity().to_bits(),
            w.drv.reflected_temperature().map(f32::to_bits),
            w.drv.ambient_temperature().map(f32::to_bits),
        )
    };
    for (i, op) in h.ops.iter().enumerate() {
        let at = |m: String| format!("operation {i} ({op:?}): {m}");
        let none = vec![];
        let faults = c.faults.get(i).unwrap_or(&none);
        let mut done = None;
        let mut given_up = false;
        let mut read_frame = false;
        let (dest_op, settings_op) = (bits_of(&w.dest), settings(&w));
        // While a measurement of a given-up synchronization runs, failed attempts would be polls
        // that the twin does not see.
        let running = w.bus.0.borrow().measuring();
        for f in faults {
            if running || matches!(op, Op::Frame(..)) {
                break;
            }
            w.prepare(op);
            let (log0, status0, control0, measuring) = {
                let mut d = w.bus.0.borrow_mut();
                d.fault_in = Some(u32::from(f.after));
                d.fault_code = f.code;
                d.fault_fill = usize::from(f.fill);
                (d.log.len(), d.status, d.control, d.measuring())
            };
            let (dest0, settings0, hits0) = (bits_of(&w.dest), settings(&w), w.bus.0.borrow().faults_hit);
            let r = {
                let (drv, dest) = (&mut w.drv, &mut w.dest);
                no_panic("the call", || apply(&mut **drv, op, dest)).map_err(at)?
            };
            let settings1 = settings(&w);
            {
                let mut d = w.bus.0.borrow_mut();
                d.fault_in = None;
                if d.faults_hit == hits0 {
                    // the call needs fewer transactions than that
                    done = Some(r);
                } else {
                    cx.hit("faults");
                    cx.nontrivial();
                    let log = &d.log[log0..];
                    let Some(bad) = log.iter().position(|t| !t.ok()) else { return Err(at("lost fault".into())) };
                    let want = match log[bad] {
                        Tx::Read(..) => DErr::Read(f.code),
                        Tx::Write(..) => DErr::Write(f.code),
                    };
                    ensure!(r == Err(want.clone()), "{}", at(format!("a failing {:x?} was reported as {r:?}", log[bad])));
                    ensure!(
                        bad == log.len() - 1,
                        "{}",
                        at(format!("went on after a failing {:x?}: {:x?}", log[bad], &log[bad + 1..]))
                    );
                    let wrote = log[..bad].iter().any(|t| matches!(t, Tx::Write(..)));
                    // A measurement begun by an earlier attempt may end meanwhile.
                    if !wrote {
                        ensure!(
                            (measuring || d.status == status0) && d.control == control0,
                            "{}",
                            at(format!("registers changed to {:#06x}/{:#06x}", d.status, d.control))
                        );
                    }
                    match log[bad] {
                        Tx::Read(..) => {
                            cx.hit("failed_reads");
                            // Reading the status once more to acknowledge a frame that has been
                            // read in full: by then it may have been converted.
                            let acknowledging = *op == Op::IfReady
                                && log[bad].address() == 0x8000
                                && log[..bad].iter().any(|t| t.address() < 0x8000);
                            ensure!(
                                acknowledging || bits_of(&w.dest) == dest0,
                                "{}",
                                at("a failed read changed the image".into())
                            );
                            ensure!(
                                settings1.0 == settings0.0
                                    && settings1.1 == settings0.1
                                    && (acknowledging || settings1.2 == settings0.2),
                                "{}",
                                at(format!("a failed read changed the driver: {settings0:?} to {settings1:?}"))
                            );
                        }
                        Tx::Write(..) => {
                            cx.hit("failed_writes");
                            ensure!(
                                settings1.0 == settings0.0 && settings1.1 == settings0.1,
                                "{}",
                                at("a failed write changed the driver's settings".into())
                            );
                            if *op == Op::IfReady {
                                ensure!(
                                    d.status & S_NEW != 0,
                                    "{}",
                                    at("the frame is not flagged any more after a failed acknowledgement".into())
                                );
                            }
                        }
                    }
                }
            }
            if done.is_some() {
                break;
            }
            for t in &w.bus.0.borrow().log[log0..] {
                read_frame |= t.ok() && t.address() < 0x8000;
            }
            if f.give_up {
                // To the driver nothing has happened, except that an image may have been delivered.
                given_up = true;
                let delivered = bits_of(&w.dest) != dest_op || settings1.2 != settings_op.2;
                if delivered && *op == Op::IfReady && read_frame {
                    twin.prepare(&Op::Image);
                    let (drv, dest) = (&mut twin.drv, &mut twin.dest);
                    no_panic("the call", || apply(&mut **drv, &Op::Image, dest)).map_err(at)?.ok();
                    if settings1.2 != settings(&twin).2 || bits_of(&w.dest) == dest_op {
                        // The image was delivered without its ambient temperature, or the other
                        // way round: no twin tells what comes next.
                        return Ok(());
                    }
                }
                // The device goes on from where the failed call left it.
                w.bus.0.borrow_mut().on_start.clear();
                twin.bus.0.replace(w.bus.0.borrow().clone());
                cx.hit("given_up");
                break;
            }
            // The driver agrees with the device about its settings.
            if let Some(p) = f.probe {
                let probe = [Op::ImageSub(0), Op::ImageSub(1), Op::RawSub(0), Op::RawSub(1)][usize::from(p % 4)].clone();
                let d0 = twin.dest.clone();
                let (mut x, mut y) = (d0.clone(), d0);
                // Mid-synchronization the device may already be elsewhere.
                let same = {
                    let (d, t) = (w.bus.0.borrow(), twin.bus.0.borrow());
                    d.control == t.control && d.ram == t.ram
                };
                if same {
                    let ra = no_panic("the call", || apply(&mut *w.drv, &probe, &mut x)).map_err(at)?;
                    let rb = no_panic("the call", || apply(&mut *twin.drv, &probe, &mut y)).map_err(at)?;
                    ensure!(
                        ra == rb && x.iter().zip(&y).all(|(x, y)| near(*x, *y)),
                        "{}",
                        at(format!("after the fault, {probe:?} differs from the same call without the fault"))
                    );
                    cx.hit("probes");
                }
            }
        }
        let (r, t) = if given_up {
            (Ok(Val::Unit), Ok(Val::Unit))
        } else {
            let r = match done {
                Some(r) => r,
                None => {
                    w.prepare(op);
                    let (drv, dest) = (&mut w.drv, &mut w.dest);
                    no_panic("the call", || apply(&mut **drv, op, dest)).map_err(at)?
                }
            };
            twin.prepare(op);
            let (drv, dest) = (&mut twin.drv, &mut twin.dest);
            (r, no_panic("the call", || apply(&mut **drv, op, dest)).map_err(at)?)
        };
        ensure!(r == t, "{}", at(format!("returns {r:?} when repeated after faults, {t:?} without faults")));
        ensure!(
            w.dest.iter().zip(&twin.dest).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
            "{}",
            at("the image differs from the one without faults".into())
        );
        let (s, u) = (settings(&w), settings(&twin));
        ensure!(s == u, "{}", at(format!("the driver's state {s:x?} differs from the one without faults {u:x?}")));
        let (d, e) = (w.bus.0.borrow(), twin.bus.0.borrow());
        ensure!(
            d.status == e.status && d.control == e.control,
            "{}",
            at(format!(
                "the device's registers {:#06x}/{:#06x} differ from those without faults {:#06x}/{:#06x}",
                d.status, d.control, e.status, e.control
            ))
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Creation {
    eep: Eep,
    addr: u8,
    control: u16,
    over_bus: bool,
    after: u8,
    code: u32,
    fill: u16,
}

fn creation_fault(c: &Creation, cx: &mut Cx) -> Verdict {
    let cal = load(c.eep.cam, &c.eep.bytes()).map_err(|e| format!("plausible EEPROM refused: {e:?}"))?;
    let mut dev = Dev::new(c.eep.cam, c.addr, c.eep.words());
    dev.control = c.control;
    dev.fault_in = Some(u32::from(c.after));
    dev.fault_code = c.code;
    dev.fault_fill = usize::from(c.fill);
    let bus = SimBus::new(dev);
    let make = || if c.over_bus { driver_over_bus(&bus) } else { driver_with(&bus, &cal) };
    let r = no_panic("creating the driver", make)?;
    let hit = {
        let mut d = bus.0.borrow_mut();
        d.fault_in = None;
        let hit = d.faults_hit > 0;
        if hit {
            let bad = d.log.iter().position(|t| !t.ok()).unwrap_or(0);
            ensure!(bad == d.log.len() - 1, "creating the driver went on after a failed read");
        }
        hit
    };
    if hit {
        cx.nontrivial();
        match r {
            Ok(_) => return Err("a driver was created in spite of a failed read".into()),
            Err(e) => ensure!(e == DErr::Read(c.code), "a failed read was reported as {e:?}"),
        }
    } else {
        ensure!(r.is_ok(), "creating the driver failed on a working bus");
    }
    let again = no_panic("creating the driver", make)?;
    ensure!(again.is_ok(), "creating the driver failed after the bus recovered");
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        assumptions: vec![
            "a failed transaction has no effect on the device; a failed read may have filled part of the buffer it was given",
        ],
        families: vec![
            Box::new(Gen::<FaultCase> {
                name: "history",
                rule: "at least one transaction failed",
                quick: 96_000,
                thorough: 4_000_000,
                strat: |_| fault_strat(),
                test: fault_case,
            }),
            Box::new(Gen::<Creation> {
                name: "creation",
                rule: "a transaction failed",
                quick: 16_000,
                thorough: 400_000,
                strat: |_| {
                    (eep_any(), 1u8..0x80, any::<u16>(), any::<bool>(), 0u8..3, any::<u32>(), 0u16..1700)
                        .prop_map(|(eep, addr, control, over_bus, after, code, fill)| Creation {
                            eep,
                            addr,
                            control,
                            over_bus,
                            after,
                            code,
                            fill,
                        })
                        .boxed()
                },
                test: creation_fault,
            }),
            crate::p_age::family(crate::p_age::Aged::Faults),
        ],
    }
}

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wild {
    conv: Conv,
    emissivity: F,
    reflected: Option<F>,
    zero_gain: bool,
    zero_ptat: bool,
}

fn wild_case(c: &Wild, cx: &mut Cx) -> Verdict {
    let cal = c.conv.cal.build()?;
    let cam = cal.cam();
    let n = cam.pixels();
    let mut conv = c.conv.clone();
    conv.emissivity = c.emissivity.get();
    conv.reflected = c.reflected.map(F::get);
    if c.zero_gain {
        conv.frame.gain = 0;
    }
    if c.zero_ptat {
        conv.frame.ptat = 0;
        conv.frame.vbe = 0;
    }
    let ram = conv.frame.ram(cam);
    let s = conv.s();
    let aux = conv.frame.aux(s);
    let bytes = pixel_bytes(cam, &ram, s);
    let before: Vec<f32> = vec![1.0; n];
    let (mut ir, mut t) = (before.clone(), before.clone());
    no_panic("the IR conversion", || lib_ir(&cal, &conv, &bytes, &aux, &mut ir))?;
    let ta = no_panic("the temperature conversion", || lib_fused(&cal, &conv, &bytes, &aux, &mut t))?;
    let mut two = ir.clone();
    no_panic("the conversion of IR values", || crate::p_calc::lib_temps(&cal, &conv, ta, &mut two))?;
    let shot = conv.shot(&ram);
    let r = cal.reference();
    let (ir_want, t_want) = (image(&r, &shot, false), image(&r, &shot, true));
    let undefined_frame = aux.gain == 0 || aux.ptat == 0 && aux.vbe == 0;
    let no_emissivity = conv.emissivity.is_nan() || conv.emissivity == 0.0;
    let no_reflected = conv.reflected.is_some_and(|t| !t.is_finite()) && conv.emissivity != 1.0;
    let (mut finite, mut not) = (0u64, 0u64);
    for (want, got, what) in [(&ir_want, &ir, "IR"), (&t_want, &t, "temperature"), (&t_want, &two, "two-step temperature")] {
        for i in 0..n {
            match want.px[i] {
                None => {}
                Some(_) if no_emissivity || no_reflected && what != "IR" => {
                    not += 1;
                    ensure!(
                        !got[i].is_finite(),
                        "{what} of pixel {i} is {} with emissivity {} and reflected temperature {:?}",
                        got[i],
                        conv.emissivity,
                        conv.reflected
                    );
                }
                Some(_) if undefined_frame => {
                    not += 1;
                    ensure!(
                        !got[i].is_finite(),
                        "{what} of pixel {i} is {} with gain {} and PTAT {}/{}",
                        got[i],
                        aux.gain,
                        aux.ptat,
                        aux.vbe
                    );
                }
                Some(Want::Undefined) => {
                    not += 1;
                    ensure!(!got[i].is_finite(), "{what} of pixel {i} is {}, its formula is undefined", got[i]);
                }
                Some(Want::Is(e)) => {
                    finite += 1;
                    ensure!(got[i].is_finite(), "{what} of pixel {i} is {}, expected {}", got[i], e.v);
                }
                Some(Want::Unknown) => {}
            }
        }
    }
    if undefined_frame || no_emissivity || no_reflected {
        cx.hit("undefined_frames");
    }
    cx.add("defined_pixels", finite);
    cx.add("undefined_pixels", not);
    if finite + not > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn wild_floats() -> BoxedStrategy<F> {
    prop_oneof![
        3 => emissivity().prop_map(F::of),
        1 => proptest::sample::select(&[0f32, -0.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 1e-40][..]).prop_map(F::of),
        1 => any::<u32>().prop_map(F),
    ]
    .boxed()
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        assumptions: vec!["evaluated with overflow checks and debug assertions enabled in the library"],
        families: vec![
            Box::new(Gen::<Wild> {
                name: "conversions",
                rule: "some pixel is known to be defined or undefined",
                quick: 64_000,
                thorough: 3_200_000,
                strat: |_| {
                    (
                        prop_oneof![
                            2 => crate::p_calc::conv(cal_any(), frame_wild()),
                            1 => crate::p_calc::conv(cal_any(), frame_physical()),
                        ],
                        wild_floats(),
                        proptest::option::of(wild_floats()),
                        proptest::bool::weighted(0.1),
                        proptest::bool::weighted(0.1),
                    )
                        .prop_map(|(conv, emissivity, reflected, zero_gain, zero_ptat)| Wild {
                            conv,
                            emissivity,
                            reflected,
                            zero_gain,
                            zero_ptat,
                        })
                        .boxed()
                },
                test: wild_case,
            }),
            Box::new(Gen::<History> {
                name: "history",
                rule: "at least one operation ran",
                quick: 96_000,
                thorough: 4_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 20 } else { 50 };
                    history(cal_any(), prop_oneof![2 => frame_wild(), 1 => frame_physical()].boxed(), ops(even_mix(true), n))
                },
                test: |h, cx| run(h, On::Alive, cx),
            }),
            crate::p_age::family(crate::p_age::Aged::Alive),
        ],
    }
}

// ------------------------------------------------------------------ C29

fn mirrored(h: &History, cx: &mut Cx) -> Verdict {
    let Ok(Ok(mut a)) = no_panic("start", || start(h)) else { return Ok(()) };
    let mut b = start(h)?;
    let mirror = b.cal.mirror();
    b.drv = driver_with(&b.bus, &mirror).map_err(|e| format!("creating the driver failed: {e:?}"))?;
    for (i, op) in h.ops.iter().enumerate() {
        let at = |m: &str| format!("operation {i} ({op:?}): {m} differs with a user implementation of the same constants");
        a.prepare(op);
        b.prepare(op);
        let x = no_panic("the call", || apply(&mut *a.drv, op, &mut a.dest));
        let y = no_panic("the call", || apply(&mut *b.drv, op, &mut b.dest));
        let (Ok(x), Ok(y)) = (x, y) else { return Ok(()) };
        ensure!(x == y, "{}", at("the result"));
        ensure!(
            a.dest.iter().zip(&b.dest).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
            "{}",
            at("the image")
        );
        ensure!(
            a.drv.effective_emissivity().to_bits() == b.drv.effective_emissivity().to_bits(),
            "{}",
            at("the emissivity")
        );
        ensure!(
            a.drv.ambient_temperature().map(f32::to_bits) == b.drv.ambient_temperature().map(f32::to_bits),
            "{}",
            at("the ambient temperature")
        );
        if is_image(op) {
            cx.nontrivial();
            cx.hit("images");
        }
    }
    Ok(())
}

#[cfg(feature = "custom")]
mod loader {
    use super::*;

    /// A user calibration that is loaded over the bus: its reads and its outcome.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Loading {
        h: History,
        /// Offsets into the EEPROM and numbers of words.
        reads: Vec<(u16, u8)>,
        /// The error the loader ends with, if any.
        error: Option<(u8, u32)>,
    }

    struct Loader {
        cal: AnyCal,
        reads: Vec<(u16, u8)>,
        error: Option<DErr>,
        /// The address of each call.
        calls: Vec<u8>,
    }

    thread_local! {
        static LOADER: std::cell::RefCell<Option<Loader>> = const { std::cell::RefCell::new(None) };
    }

    macro_rules! user_loader {
        ($cam:ty, $v:ident) => {
            impl<B> FromI2C<B> for SynCal<$cam>
            where
                B: i2c::WriteRead<Error = RdErr> + i2c::Write<Error = WrErr>,
            {
                type Error = Error<B>;
                type Ok = SynCal<$cam>;
                fn from_i2c(bus: &mut B, addr: u8) -> Result<SynCal<$cam>, Error<B>> {
                    LOADER.with(|l| {
                        let mut l = l.borrow_mut();
                        let l = l.as_mut().expect("no loader");
                        l.calls.push(addr);
                        for (at, n) in &l.reads {
                            let mut b = vec![0; 2 * usize::from(*n)];
                            bus.write_read(addr, &(EEPROM_BASE + at).to_be_bytes(), &mut b)
                                .map_err(Error::I2cWriteReadError)?;
                        }
                        match (&l.error, &l.cal) {
                            (None, AnyCal::$v(c)) => Ok((**c).clone()),
                            (None, _) => unreachable!(),
                            (Some(DErr::Read(n)), _) => Err(Error::I2cWriteReadError(RdErr(*n))),
                            (Some(DErr::Write(n)), _) => Err(Error::I2cWriteError(WrErr(*n))),
                            (Some(DErr::Lib(e)), _) => Err(Error::LibraryError(e.clone())),
                        }
                    })
                }
            }
        };
    }
    user_loader!(Mlx90640, S640);
    user_loader!(Mlx90641, S641);

    pub fn user_loaded(c: &Loading, cx: &mut Cx) -> Verdict {
        let mut a = start(&c.h)?;
        let p = parts(&c.h)?;
        let error = c.error.map(|(k, n)| match k % 5 {
            0 => DErr::Read(n),
            1 => DErr::Write(n),
            2 => DErr::Lib(LibraryError::InvalidData("user")),
            3 => DErr::Lib(LibraryError::Other("user")),
            _ => DErr::Lib(LibraryError::Checksum(n as u16)),
        });
        let bus = SimBus::new(p.dev.clone());
        let loader = Loader { cal: p.cal.clone(), reads: c.reads.clone(), error: error.clone(), calls: vec![] };
        LOADER.with(|l| *l.borrow_mut() = Some(loader));
        let made: Result<Result<Box<dyn AnyDriver>, DErr>, String> = no_panic("creating the driver", || {
            Ok(match p.cal.cam() {
                Cam::M640 => {
                    Box::new(CameraDriver::<SynCal<Mlx90640>, _, 24, 1536>::new(bus.clone(), c.h.addr)?) as Box<dyn AnyDriver>
                }
                Cam::M641 => Box::new(CameraDriver::<SynCal<Mlx90641>, _, 12, 384>::new(bus.clone(), c.h.addr)?),
            })
        });
        let calls = LOADER.with(|l| l.borrow_mut().take()).map(|l| l.calls).unwrap_or_default();
        let made = made?;
        let log = bus.0.borrow().log.clone();
        ensure!(calls == [c.h.addr], "the user's loader was called with the addresses {calls:x?}, expected one call with {:#x}", c.h.addr);
        let own: Vec<Tx> = c.reads.iter().map(|(a, n)| Tx::Read(EEPROM_BASE + a, usize::from(*n), true)).collect();
        ensure!(log.starts_with(&own), "the user's loader reads {own:x?}, the bus saw {log:x?}");
        ensure!(
            log[own.len()..].iter().all(|t| matches!(t, Tx::Read(a, ..) if !(EEPROM_BASE..EEPROM_BASE + 832).contains(a))),
            "with a user's loader the driver itself performed {:x?}",
            &log[own.len()..]
        );
        cx.nontrivial();
        let drv = match (error, made) {
            (Some(e), Err(f)) => {
                cx.hit("loader_errors");
                ensure!(e == f, "the user's loader fails with {e:?}, creating the driver with {f:?}");
                return Ok(());
            }
            (None, Ok(d)) => d,
            (e, m) => return Err(format!("the user's loader gives error {e:?}, creating the driver {:?}", m.map(|_| ()))),
        };
        bus.0.borrow_mut().sealed = true;
        let mut b = p.world(bus, drv);
        for (i, op) in c.h.ops.iter().enumerate() {
            let at = |m: &str| format!("operation {i} ({op:?}): {m} differs when the user's calibration is loaded over the bus");
            a.prepare(op);
            b.prepare(op);
            let x = no_panic("the call", || apply(&mut *a.drv, op, &mut a.dest));
            let y = no_panic("the call", || apply(&mut *b.drv, op, &mut b.dest));
            let (Ok(x), Ok(y)) = (x, y) else { return Ok(()) };
            ensure!(x == y, "{}", at("the result"));
            ensure!(a.dest.iter().zip(&b.dest).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()), "{}", at("the image"));
            ensure!(a.drv.effective_emissivity().to_bits() == b.drv.effective_emissivity().to_bits(), "{}", at("the emissivity"));
            if is_image(op) {
                cx.hit("images");
            }
        }
        Ok(())
    }

    pub fn loading() -> BoxedStrategy<Loading> {
        let reads = proptest::collection::vec((0u16..832, 1u8..40), 0..4)
            .prop_map(|v| v.into_iter().map(|(a, n)| (a, n.min((832 - a).min(255) as u8))).collect());
        let error = prop_oneof![3 => Just(None).boxed(), 2 => any::<(u8, u32)>().prop_map(Some).boxed()];
        (history(custom_cal(), frame_any(), ops(image_mix(), 8)), reads, error)
            .prop_map(|(h, reads, error)| Loading { h, reads, error })
            .boxed()
    }
}

pub fn c29() -> Property {
    Property {
        id: "C29",
        assumptions: vec!["the per-range sensitivity corrections are not used by frame processing (only the basic range is)"],
        families: vec![
            Box::new(Gen::<History> {
                name: "custom",
                rule: "at least one pixel of one image was well-conditioned and compared",
                quick: 96_000,
                thorough: 4_000_000,
                strat: |t| {
                    let n = if t == Tier::Quick { 14 } else { 30 };
                    history(custom_cal(), frame_any(), ops(image_mix(), n))
                },
                test: |h, cx| run(h, On::Image, cx),
            }),
            Box::new(Gen::<History> {
                name: "mirror",
                rule: "at least one image was produced",
                quick: 32_000,
                thorough: 1_200_000,
                strat: |_| history(eeprom_cal(), frame_any(), ops(image_mix(), 10)),
                test: mirrored,
            }),
            #[cfg(feature = "custom")]
            Box::new(Gen::<loader::Loading> {
                name: "loaded",
                rule: "the user's loader was called once, at the driver's address",
                quick: 24_000,
                thorough: 800_000,
                strat: |_| loader::loading(),
                test: loader::user_loaded,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BusLoad {
    cam: Cam,
    eep: Option<Eep>,
    raw: Words,
    addr: u8,
    status: u16,
    control: u16,
    frame: Frame,
    ops: Vec<Op>,
}

fn over_bus(cam: Cam, bus: &mut SimBus, addr: u8) -> Result<AnyCal, DErr> {
    let r: Result<AnyCal, Error<SimBus>> = match cam {
        Cam::M640 => Mlx90640Calibration::from_i2c(bus, addr).map(|c| AnyCal::E640(Box::new(c))),
        Cam::M641 => Mlx90641Calibration::from_i2c(bus, addr).map(|c| AnyCal::E641(Box::new(c))),
    };
    Ok(r?)
}

fn bus_load(c: &BusLoad, cx: &mut Cx) -> Verdict {
    let words = match &c.eep {
        Some(e) => e.words(),
        None => (0..EEPROM_WORDS).map(|i| c.raw.at(i)).collect(),
    };
    let from_bytes: Result<AnyCal, LibraryError> = load(c.cam, &to_bytes(&words));
    let device = || {
        let mut d = Dev::new(c.cam, c.addr, words.clone());
        d.ram = c.frame.ram(c.cam);
        d.status = c.status;
        d.control = c.control;
        SimBus::new(d)
    };
    let mut bus = device();
    let loaded = over_bus(c.cam, &mut bus, c.addr);
    {
        let d = bus.0.borrow();
        ensure!(d.breaches.is_empty(), "loading the calibration: {}", d.breaches.join("; "));
        for t in &d.log {
            match t {
                Tx::Read(a, n, true)
                    if *a >= EEPROM_BASE && usize::from(*a - EEPROM_BASE) + n <= EEPROM_WORDS => {}
                t => return Err(format!("loading the calibration performed {t:x?}")),
            }
        }
    }
    match (&from_bytes, &loaded) {
        (Ok(a), Ok(b)) => ensure!(a.dump() == b.dump(), "the calibration read over the bus differs from the EEPROM's"),
        (Err(a), Err(DErr::Lib(b))) => ensure!(a == b, "the EEPROM fails with {a:?}, over the bus with {b:?}"),
        (a, b) => {
            return Err(format!(
                "the EEPROM bytes give {:?}, loading over the bus {:?}",
                a.as_ref().map(|_| ()),
                b.as_ref().map(|_| ())
            ))
        }
    }
    cx.hit(if from_bytes.is_ok() { "accepted" } else { "refused" });
    cx.nontrivial();
    let (b1, b2) = (device(), device());
    let created = driver_over_bus(&b1);
    match (&from_bytes, created) {
        (Err(e), Err(DErr::Lib(f))) => {
            ensure!(*e == f, "the EEPROM fails with {e:?}, creating the driver with {f:?}");
        }
        (Ok(cal), Ok(mut x)) => {
            let mut y = driver_with(&b2, cal).map_err(|e| format!("creating the driver failed: {e:?}"))?;
            let n = c.cam.pixels();
            let (mut p, mut q) = (vec![0f32; n], vec![0f32; n]);
            for (i, op) in c.ops.iter().enumerate() {
                if matches!(op, Op::Sync(..)) {
                    continue;
                }
                let (r, s) = (
                    no_panic("the call", || apply(&mut *x, op, &mut p)),
                    no_panic("the call", || apply(&mut *y, op, &mut q)),
                );
                let (Ok(r), Ok(s)) = (r, s) else { return Ok(()) };
                let at = |m: &str| {
                    format!("operation {i} ({op:?}): {m} depends on whether the calibration was read over the bus")
                };
                ensure!(r == s, "{}", at("the result"));
                ensure!(
                    p.iter().zip(&q).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
                    "{}",
                    at("the image")
                );
                ensure!(x.effective_emissivity().to_bits() == y.effective_emissivity().to_bits(), "{}", at("the emissivity"));
                ensure!(
                    x.ambient_temperature().map(f32::to_bits) == y.ambient_temperature().map(f32::to_bits),
                    "{}",
                    at("the ambient temperature")
                );
                let (d, e) = (b1.0.borrow(), b2.0.borrow());
                ensure!((d.status, d.control) == (e.status, e.control), "{}", at("the device"));
            }
        }
        (a, b) => {
            return Err(format!(
                "the EEPROM bytes give {:?}, creating the driver {:?}",
                a.as_ref().map(|_| ()),
                b.map(|_| ())
            ))
        }
    }
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        assumptions: vec!["evaluated in a build without overflow checks, so that any EEPROM content can be used"],
        families: vec![Box::new(Gen::<BusLoad> {
            name: "load",
            rule: "always (one EEPROM image loaded both ways)",
            quick: 96_000,
            thorough: 3_600_000,
            strat: |_| {
                let m = Mix { setting: 3, getting: 1, local: 2, frame: 0, image: 5, if_ready: 1, reset: 1, sync: 0, changed: 0, wild: false };
                (
                    prop_oneof![
                        3 => eep_any().prop_map(|e| (e.cam, Some(e), Words::constant(0))).boxed(),
                        2 => (any_cam(), words(EEPROM_WORDS, edge16(), &[0xFFFF, 0x7FF, 0xF000, 0x00FF]))
                            .prop_map(|(c, w)| (c, None, w)).boxed(),
                        1 => (0u16..832, edge16(), eep_any()).prop_map(|(i, v, e)| {
                            // one arbitrary word in a well-formed image
                            let mut set: std::collections::BTreeMap<u16, u16> =
                                e.words().into_iter().enumerate().map(|(i, w)| (i as u16, w)).collect();
                            set.insert(i, v);
                            (e.cam, None, Words { base: 0, noise: None, set })
                        }).boxed(),
                    ],
                    1u8..0x80,
                    any::<u16>(),
                    control(),
                    frame_any(),
                    ops(m, 8),
                )
                    .prop_map(|((cam, eep, raw), addr, status, control, frame, ops)| BusLoad {
                        cam,
                        eep,
                        raw,
                        addr,
                        status,
                        control,
                        frame,
                        ops,
                    })
                    .boxed()
            },
            test: bus_load,
        })],
    }
}
