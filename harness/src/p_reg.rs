//! C24, C25: registers and conversions, exhaustively.
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::time::Duration;

use proptest::strategy::Strategy;

use mlx9064x::common::{FromI2C, ToI2C};
use mlx9064x::{ControlRegister, FrameRate, I2cRegister, Resolution, StatusRegister};

use crate::device::{Dev, SimBus, Tx};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;

fn status(v: u16) -> StatusRegister {
    StatusRegister::from(&v.to_be_bytes()[..])
}
fn control(v: u16) -> ControlRegister {
    ControlRegister::from(&v.to_be_bytes()[..])
}
fn i2c(v: u16) -> I2cRegister {
    I2cRegister::from(&v.to_be_bytes()[..])
}
fn raw(b: [u8; 2]) -> u16 {
    u16::from_be_bytes(b)
}

macro_rules! set {
    ($old:expr, $new:expr, $mask:expr, $value:expr, $what:expr) => {{
        let (old, want) = ($old, $old & !$mask | $value);
        let got = raw($new.into());
        ensure!(got == want, "{} turns {old:#06x} into {got:#06x}, expected {want:#06x}", $what);
    }};
}

fn status_case(v: u16) -> Verdict {
    let r = status(v);
    ensure!(raw(r.into()) == v, "status {v:#06x} re-encodes to {:#06x}", raw(r.into()));
    ensure!(r.last_updated_subpage() == sp(usize::from(v & 1)), "status {v:#06x}: subpage {:?}", r.last_updated_subpage());
    ensure!(r.new_data() == (v & S_NEW != 0), "status {v:#06x}: new data {}", r.new_data());
    ensure!(r.overwrite_enabled() == (v & S_OVERWRITE != 0), "status {v:#06x}: overwrite {}", r.overwrite_enabled());
    ensure!(r.start_measurement() == (v & S_START != 0), "status {v:#06x}: start {}", r.start_measurement());
    for b in [false, true] {
        let mut x = r;
        x.set_overwrite_enabled(b);
        ensure!(x.overwrite_enabled() == b, "status {v:#06x}: overwrite set to {b} reads {}", !b);
        set!(v, x, S_OVERWRITE, if b { S_OVERWRITE } else { 0 }, "setting overwrite");
    }
    let mut x = r;
    x.reset_new_data();
    ensure!(!x.new_data(), "status {v:#06x}: new data still set");
    set!(v, x, S_NEW, 0, "clearing new data");
    let mut x = r;
    x.set_start_measurement();
    ensure!(x.start_measurement(), "status {v:#06x}: start not set");
    set!(v, x, S_START, S_START, "starting a measurement");
    Ok(())
}

fn control_case(v: u16) -> Verdict {
    let r = control(v);
    ensure!(raw(r.into()) == v, "control {v:#06x} re-encodes to {:#06x}", raw(r.into()));
    macro_rules! flag {
        ($get:ident, $set:ident, $mask:expr) => {
            ensure!(r.$get() == (v & $mask != 0), "control {v:#06x}: {} is {}", stringify!($get), r.$get());
            for b in [false, true] {
                let mut x = r;
                x.$set(b);
                ensure!(x.$get() == b, "control {v:#06x}: {} reads {} after being set to {b}", stringify!($get), !b);
                set!(v, x, $mask, if b { $mask } else { 0 }, stringify!($set));
            }
        };
    }
    flag!(use_subpages, set_use_subpages, C_SUBPAGES);
    flag!(step_mode, set_step_mode, C_STEP);
    flag!(data_hold, set_data_hold, C_HOLD);
    flag!(subpage_repeat, set_subpage_repeat, C_REPEAT);
    ensure!(r.subpage() == sp(usize::from(v & C_SUBPAGE != 0)), "control {v:#06x}: subpage {:?}", r.subpage());
    for s in 0..2u16 {
        let mut x = r;
        x.set_subpage(sp(usize::from(s)));
        ensure!(sp_n(x.subpage()) == usize::from(s), "control {v:#06x}: subpage not set");
        set!(v, x, C_SUBPAGE, s << 4, "set_subpage");
    }
    ensure!(
        rate_raw(r.frame_rate()) == (v & C_RATE) >> 7,
        "control {v:#06x}: frame rate {:?}",
        r.frame_rate()
    );
    for (k, f) in RATES.iter().enumerate() {
        let mut x = r;
        x.set_frame_rate(*f);
        ensure!(x.frame_rate() == *f, "control {v:#06x}: frame rate set to {f:?} reads {:?}", x.frame_rate());
        set!(v, x, C_RATE, (k as u16) << 7, "set_frame_rate");
    }
    ensure!(res_raw(r.resolution()) == (v & C_RES) >> 10, "control {v:#06x}: resolution {:?}", r.resolution());
    for (k, f) in RESOLUTIONS.iter().enumerate() {
        let mut x = r;
        x.set_resolution(*f);
        ensure!(x.resolution() == *f, "control {v:#06x}: resolution set to {f:?} reads {:?}", x.resolution());
        set!(v, x, C_RES, (k as u16) << 10, "set_resolution");
    }
    ensure!(r.access_pattern() == ap(v & C_PATTERN != 0), "control {v:#06x}: pattern {:?}", r.access_pattern());
    for b in [false, true] {
        let mut x = r;
        x.set_access_pattern(ap(b));
        ensure!(x.access_pattern() == ap(b), "control {v:#06x}: pattern not set");
        set!(v, x, C_PATTERN, if b { C_PATTERN } else { 0 }, "set_access_pattern");
    }
    Ok(())
}

fn i2c_case(v: u16) -> Verdict {
    let r = i2c(v);
    ensure!(raw(r.into()) == v, "I2C configuration {v:#06x} re-encodes to {:#06x}", raw(r.into()));
    macro_rules! flag {
        ($get:ident, $set:ident, $mask:expr, $inverted:expr) => {
            ensure!(
                r.$get() == ((v & $mask != 0) != $inverted),
                "I2C configuration {v:#06x}: {} is {}",
                stringify!($get),
                r.$get()
            );
            for b in [false, true] {
                let mut x = r;
                x.$set(b);
                ensure!(x.$get() == b, "I2C configuration {v:#06x}: {} reads {}", stringify!($get), !b);
                set!(v, x, $mask, if b != $inverted { $mask } else { 0 }, stringify!($set));
            }
        };
    }
    flag!(fast_mode_plus, set_fast_mode_plus, 0x0001u16, true);
    flag!(i2c_threshold_halved, set_i2c_threshold_halved, 0x0002u16, false);
    flag!(sda_current_limiter, set_sda_current_limiter, 0x0004u16, true);
    Ok(())
}

const STATUS_FIELDS: u16 = S_SUBPAGE | S_NEW | S_OVERWRITE | S_START;
const CONTROL_FIELDS: u16 =
    C_SUBPAGES | C_STEP | C_HOLD | C_REPEAT | C_SUBPAGE | C_RATE | C_RES | C_PATTERN;
const I2C_FIELDS: u16 = 7;

/// Equality against related values: every single-bit change, every field bit, and others.
fn equality(v: u16, cx: &mut Cx) -> Verdict {
    let others = (0..16)
        .map(|b| v ^ 1 << b)
        .chain((0..16).map(|k| v ^ (0x9E37u16.wrapping_mul(k + 1)) ^ k))
        .chain([v, !v, v ^ !STATUS_FIELDS, v ^ !CONTROL_FIELDS, v ^ !I2C_FIELDS, 0, 0xFFFF]);
    for o in others {
        let same = |mask: u16| v & mask == o & mask;
        ensure!((status(v) == status(o)) == same(STATUS_FIELDS), "status {v:#06x} == {o:#06x} is {}", !same(STATUS_FIELDS));
        ensure!(
            (control(v) == control(o)) == same(CONTROL_FIELDS),
            "control {v:#06x} == {o:#06x} is {}",
            !same(CONTROL_FIELDS)
        );
        ensure!((i2c(v) == i2c(o)) == same(I2C_FIELDS), "I2C configuration {v:#06x} == {o:#06x} is {}", !same(I2C_FIELDS));
        ensure!(
            (i2c(v).cmp(&i2c(o)) == Ordering::Equal) == same(I2C_FIELDS)
                && i2c(v).cmp(&i2c(o)) == i2c(o).cmp(&i2c(v)).reverse()
                && i2c(v).partial_cmp(&i2c(o)) == Some(i2c(v).cmp(&i2c(o))),
            "the order of the I2C configurations {v:#06x} and {o:#06x} contradicts their equality"
        );
        cx.hit("equalities");
    }
    Ok(())
}

/// Through the bus, at any device address.
fn transfer(v: u16) -> Verdict {
    let addr = 1 + (v.wrapping_mul(0x6D) >> 9) as u8 % 0x7E;
    let mut d = Dev::new(Cam::M640, addr, vec![0; EEPROM_WORDS]);
    d.status = v;
    d.control = v.rotate_left(5) ^ 0x1234;
    d.i2c_config = v.rotate_left(9) ^ 0x4321;
    let (c, i) = (d.control, d.i2c_config);
    let mut bus = SimBus::new(d);
    let a = StatusRegister::from_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    let b = ControlRegister::from_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    let e = I2cRegister::from_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    ensure!(
        (raw(a.into()), raw(b.into()), raw(e.into())) == (v, c, i),
        "reading {v:#06x} {c:#06x} {i:#06x} gives {:#06x} {:#06x} {:#06x}",
        raw(a.into()),
        raw(b.into()),
        raw(e.into())
    );
    a.to_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    b.to_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    e.to_i2c(&mut bus, addr).map_err(|e| format!("{e:?}"))?;
    let d = bus.0.borrow();
    let want = vec![
        Tx::Read(STATUS, 1, true),
        Tx::Read(CONTROL, 1, true),
        Tx::Read(I2C_CONFIG, 1, true),
        Tx::Write(STATUS, v, true),
        Tx::Write(CONTROL, c, true),
        Tx::Write(I2C_CONFIG, i, true),
    ];
    ensure!(d.log == want, "transferring {v:#06x} {c:#06x} {i:#06x}: {:x?}", d.log);
    let foreign: Vec<_> = d.breaches.iter().filter(|b| !b.contains("write to 0x800f")).collect();
    ensure!(foreign.is_empty(), "{foreign:?}");
    Ok(())
}

/// Bytes read from the camera, of which the first two are the register.
fn slice_case(b: &Vec<u8>, cx: &mut Cx) -> Verdict {
    let made = [
        no_panic("StatusRegister::from", || raw(StatusRegister::from(&b[..]).into())),
        no_panic("ControlRegister::from", || raw(ControlRegister::from(&b[..]).into())),
        no_panic("I2cRegister::from", || raw(I2cRegister::from(&b[..]).into())),
    ];
    let Some(head) = b.get(..2) else {
        // Documented for the status register only.
        cx.hit("too_short");
        ensure!(made[0].is_err(), "a status register is made from {b:02x?}: {:04x?}", made[0]);
        return Ok(());
    };
    if b.len() > 2 {
        cx.nontrivial();
    }
    let want = u16::from_be_bytes([head[0], head[1]]);
    for m in made {
        let got = m?;
        ensure!(got == want, "the bytes {b:02x?} make the register {got:#06x}, expected {want:#06x}");
    }
    Ok(())
}

fn defaults(_: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let a = raw(ControlRegister::default_mlx90640().into());
    ensure!(a == 0x1901, "the MLX90640 default control register is {a:#06x}");
    let a = raw(ControlRegister::default_mlx90641().into());
    ensure!(a == 0x0901, "the MLX90641 default control register is {a:#06x}");
    let a = raw(I2cRegister::default().into());
    ensure!(a == 0, "the default I2C configuration is {a:#06x}");
    ensure!(FrameRate::default() == FrameRate::Two, "the default frame rate is {:?}", FrameRate::default());
    ensure!(Resolution::default() == Resolution::Eighteen, "the default resolution is {:?}", Resolution::default());
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        assumptions: vec![],
        families: vec![
            Box::new(All {
                name: "every_value",
                rule: "every 16-bit value of every register: fields, re-encoding, every setter",
                total: |_| 65536,
                complete: |_| true,
                test: |i, cx| {
                    cx.nontrivial();
                    status_case(i as u16)?;
                    control_case(i as u16)?;
                    i2c_case(i as u16)
                },
            }),
            Box::new(All {
                name: "equality",
                rule: "every 16-bit value against every single-bit neighbour and others",
                total: |_| 65536,
                complete: |_| false,
                test: |i, cx| {
                    cx.nontrivial();
                    equality(i as u16, cx)
                },
            }),
            Box::new(All {
                name: "transfer",
                rule: "every 16-bit value read and written over the bus",
                total: |_| 65536,
                complete: |_| true,
                test: |i, cx| {
                    cx.nontrivial();
                    transfer(i as u16)
                },
            }),
            Box::new(Gen::<Vec<u8>> {
                name: "slices",
                rule: "more bytes than the register has",
                quick: 32_000,
                thorough: 400_000,
                strat: |_| proptest::collection::vec(proptest::num::u8::ANY, 0..=12).boxed(),
                test: slice_case,
            }),
            Box::new(All { name: "defaults", rule: "the default values", total: |_| 1, complete: |_| true, test: defaults }),
        ],
    }
}

// ------------------------------------------------------------------ C25

const HZ: [f32; 8] = [0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];
const NANOS: [u64; 8] =
    [2_000_000_000, 1_000_000_000, 500_000_000, 250_000_000, 125_000_000, 62_500_000, 31_250_000, 15_625_000];
const BITS: [u8; 4] = [16, 17, 18, 19];

fn float_block(block: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let base = (block as u32) << 16;
    for low in 0..=0xFFFFu32 {
        let v = f32::from_bits(base | low);
        let want = HZ.iter().position(|h| *h == v).map(|k| RATES[k]);
        let got = FrameRate::try_from(v).ok();
        ensure!(got == want, "{v:?} ({:#010x}) converts to {got:?}, expected {want:?}", v.to_bits());
        if got.is_some() {
            cx.hit("accepted_floats");
        }
    }
    Ok(())
}

fn bytes(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let b = i as u8;
    let want = HZ.iter().position(|h| *h == f32::from(b)).map(|k| RATES[k]);
    let got = FrameRate::try_from(b).ok();
    ensure!(got == want, "byte {b} converts to the frame rate {got:?}, expected {want:?}");
    let want = BITS.iter().position(|x| *x == b).map(|k| RESOLUTIONS[k]);
    let got = Resolution::try_from(b).ok();
    ensure!(got == want, "byte {b} converts to the resolution {got:?}, expected {want:?}");
    Ok(())
}

fn values(i: u64, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let (a, b) = ((i % 8) as usize, (i / 8) as usize);
    let (x, y) = (RATES[a], RATES[b]);
    let hz: f32 = x.into();
    ensure!(hz == HZ[a], "{x:?} is {hz} Hz");
    let d: Duration = x.into();
    ensure!(d == Duration::from_nanos(NANOS[a]), "a frame at {x:?} takes {d:?}");
    ensure!(f64::from(hz) * d.as_secs_f64() == 1.0, "{x:?}: {hz} Hz and {d:?}");
    ensure!(FrameRate::try_from(hz) == Ok(x), "{x:?} does not survive the conversion to {hz} and back");
    ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order of {x:?} and {y:?}");
    ensure!((x == y) == (a == b), "equality of {x:?} and {y:?}");
    if a < 4 && b < 4 {
        let (x, y) = (RESOLUTIONS[a], RESOLUTIONS[b]);
        let bits: u8 = x.into();
        ensure!(bits == BITS[a], "{x:?} is {bits} bits");
        ensure!(Resolution::try_from(bits) == Ok(x), "{x:?} does not survive the conversion to {bits} and back");
        ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order of {x:?} and {y:?}");
        ensure!((x == y) == (a == b), "equality of {x:?} and {y:?}");
    }
    Ok(())
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        assumptions: vec![],
        families: vec![
            Box::new(All {
                name: "values",
                rule: "every pair of frame rates and of resolutions",
                total: |_| 64,
                complete: |_| true,
                test: values,
            }),
            Box::new(All { name: "bytes", rule: "every byte", total: |_| 256, complete: |_| true, test: bytes }),
            Box::new(All {
                name: "floats",
                rule: "all 2^32 single-precision bit patterns, in blocks of 2^16",
                total: |_| 65536,
                complete: |_| true,
                test: float_block,
            }),
        ],
    }
}
