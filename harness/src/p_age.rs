//! Very long histories: what a call does depends on the state of the device and on the settings,
//! not on how many calls came before it.
use crate::cases::*;
use crate::device::*;
use crate::ensure;
use crate::engine::*;
use crate::spec::Cam;
use crate::p_driver::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A few operations, some of them failing, over and over again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Age {
    history: History,
    /// Per operation: the transaction that fails, and its error.
    faults: Vec<Option<(u8, u32)>>,
    rounds: u32,
}

/// Everything that can be seen of the driver, the image and the device.
#[derive(Clone, PartialEq)]
struct Seen {
    r: Option<Result<Val, DErr>>,
    log: Vec<Tx>,
    dest: Vec<u32>,
    driver: (u32, Option<u32>, Option<u32>),
    device: (u16, u16, bool, u32),
}

fn see(w: &World, r: Option<Result<Val, DErr>>, log0: usize) -> Seen {
    let d = w.bus.0.borrow();
    Seen {
        r,
        log: d.log[log0..].to_vec(),
        dest: w.dest.iter().map(|v| if v.is_nan() { f32::NAN.to_bits() } else { v.to_bits() }).collect(),
        driver: (
            w.drv.effective_emissivity().to_bits(),
            w.drv.reflected_temperature().map(f32::to_bits),
            w.drv.ambient_temperature().map(f32::to_bits),
        ),
        device: (d.status, d.control, d.measuring(), d.polls_left),
    }
}

fn step(w: &mut World, op: &Op, fault: Option<(u8, u32)>) -> Result<Seen, String> {
    w.prepare(op);
    {
        let mut d = w.bus.0.borrow_mut();
        d.log.clear();
        d.fault_in = fault.map(|f| u32::from(f.0));
        d.fault_code = fault.map_or(0, |f| f.1);
    }
    let (drv, dest) = (&mut w.drv, &mut w.dest);
    let r = no_panic("the call", || apply(&mut **drv, op, dest))?;
    w.bus.0.borrow_mut().fault_in = None;
    Ok(see(w, Some(r), 0))
}

/// `logs`, `rest`: compare the bus transactions; everything else.
fn age_of(c: &Age, logs: bool, rest: bool, cx: &mut Cx) -> Verdict {
    let h = &c.history;
    let Ok(Ok(mut w)) = no_panic("creating the driver", || start(h)) else { return Ok(()) };
    let none = None;
    let fault = |i: usize| *c.faults.get(i).unwrap_or(&none);
    // Go round until everything visible repeats.
    let mut before = see(&w, None, 0);
    before.log.clear();
    let mut usual: Option<Vec<Seen>> = None;
    for _ in 0..8 {
        let mut round = Vec::with_capacity(h.ops.len());
        for (i, op) in h.ops.iter().enumerate() {
            match step(&mut w, op, fault(i)) {
                Ok(s) => round.push(s),
                // Others look for panics in young drivers.
                Err(_) => return Ok(()),
            }
        }
        let mut after = see(&w, None, 0);
        after.log.clear();
        if after == before {
            usual = Some(round);
            break;
        }
        before = after;
    }
    let Some(usual) = usual else { return Ok(()) };
    for n in 0..c.rounds {
        for (i, op) in h.ops.iter().enumerate() {
            let at = |m: &str| format!("{op:?} after {n} repetitions of {:?}: {m}", h.ops);
            let s = step(&mut w, op, fault(i)).map_err(|m| at(&m))?;
            let u = &usual[i];
            ensure!(!logs || s.log == u.log, "{}", at(&format!("bus transactions {:x?} instead of {:x?}", s.log, u.log)));
            if !rest {
                continue;
            }
            ensure!(s.r == u.r, "{}", at(&format!("{:?} instead of {:?}", s.r, u.r)));
            ensure!(s.device == u.device, "{}", at(&format!("device state {:x?} instead of {:x?}", s.device, u.device)));
            ensure!(s.driver == u.driver, "{}", at(&format!("driver state {:x?} instead of {:x?}", s.driver, u.driver)));
            if s.dest != u.dest {
                let p = s.dest.iter().zip(&u.dest).position(|(a, b)| a != b).unwrap_or(0);
                return Err(at(&format!(
                    "pixel {p} is {} instead of {}",
                    f32::from_bits(s.dest[p]),
                    f32::from_bits(u.dest[p])
                )));
            }
        }
    }
    cx.add("repetitions", u64::from(c.rounds));
    cx.add("repeated_calls", u64::from(c.rounds) * h.ops.len() as u64);
    if c.rounds >= 256 {
        cx.nontrivial();
    }
    if c.rounds > 65_536 {
        cx.hit("beyond_16_bits");
    }
    Ok(())
}

/// `what`: operations that are to be part of the cycle.
fn cycle(m: Mix, must: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Vec<Op>> {
    (must, ops_between(m, 0, 3), any::<bool>())
        .prop_map(|(mut a, b, first)| {
            if first {
                a.extend(b);
                a
            } else {
                b.into_iter().chain(a).collect()
            }
        })
        .boxed()
}

/// Fewer rounds where one costs more.
fn cost(h: &History) -> u32 {
    let cam = match &h.cal {
        CalCase::Eeprom(e) => e.cam,
        CalCase::Custom(s) => s.cam,
    };
    let image = if cam == Cam::M640 { 5 } else { 2 };
    h.ops
        .iter()
        .map(|o| match o {
            Op::Sync(n, ..) => 1 + n / 40,
            o if is_image(o) => image,
            _ => 1,
        })
        .sum::<u32>()
        .max(1)
}

fn ages(m: Mix, must: BoxedStrategy<Vec<Op>>, faulty: bool) -> BoxedStrategy<Age> {
    let rounds = prop_oneof![40 => 256u32..300, 4 => 1020u32..1100, 3 => 65_540u32..65_600];
    let faults = if faulty {
        proptest::collection::vec(proptest::option::weighted(0.6, (0u8..20, any::<u32>())), 1..5).boxed()
    } else {
        Just(vec![]).boxed()
    };
    (history(small_cal(), frame_physical(), cycle(m, must)), faults, rounds)
        .prop_map(|(mut history, faults, rounds)| {
            history.extra = 0;
            for o in &mut history.ops {
                if let Op::Sync(n, ..) = o {
                    *n = *n % 40 + 1;
                }
            }
            let rounds = if cost(&history) > 9 { rounds.min(1100) } else { rounds };
            Age { history, faults, rounds }
        })
        .boxed()
}

fn frame_then(op: BoxedStrategy<Op>) -> BoxedStrategy<Vec<Op>> {
    (any::<u8>(), 0u8..2, op).prop_map(|(f, s, op)| vec![Op::Frame(f, s), op]).boxed()
}

fn alone(op: BoxedStrategy<Op>) -> BoxedStrategy<Vec<Op>> {
    op.prop_map(|o| vec![o]).boxed()
}

#[derive(Clone, Copy)]
pub enum Aged {
    Images,
    Frames,
    Settings,
    Faults,
    Syncs,
    Locals,
    Bus,
    Alive,
}

fn any_op() -> BoxedStrategy<Vec<Op>> {
    prop_oneof![
        alone(setting()),
        alone(image_op()),
        alone(getting()),
        alone(local(true)),
        frame_then(Just(Op::IfReady).boxed()),
        alone(sync_op())
    ]
    .boxed()
}

pub fn family(what: Aged) -> Box<dyn Family> {
    let strat: fn(Tier) -> BoxedStrategy<Age> = match what {
        Aged::Images => |_| {
            let must = prop_oneof![2 => alone(image_op()), 1 => frame_then(image_op())].boxed();
            ages(image_mix(), must, false)
        },
        Aged::Frames => |_| {
            let must = prop_oneof![
                3 => frame_then(Just(Op::IfReady).boxed()),
                1 => alone(Just(Op::IfReady).boxed()),
                1 => alone(getting()),
                1 => frame_then(Just(Op::Reset).boxed())
            ];
            ages(ready_mix(), must.boxed(), false)
        },
        Aged::Settings => |_| {
            let must = prop_oneof![
                2 => alone(getting()),
                1 => alone(setting()),
                2 => (setting(), setting()).prop_map(|(a, b)| vec![a, b]),
                // the same setting, there and back
                1 => any::<bool>().prop_map(|b| vec![Op::Pattern(b), Op::Pattern(!b)]),
                1 => (0u8..8, 0u8..8).prop_map(|(a, b)| vec![Op::Rate(a), Op::Rate(b)]),
                1 => (0u8..4, 0u8..4).prop_map(|(a, b)| vec![Op::Res(a), Op::Res(b)])
            ];
            ages(config_mix(), must.boxed(), false)
        },
        Aged::Faults => |_| ages(even_mix(false), any_op(), true),
        Aged::Syncs => |_| ages(sync_mix(), alone(sync_op()), false),
        Aged::Locals => |_| {
            let must = prop_oneof![
                2 => alone(local(true)),
                2 => (local(true), image_op()).prop_map(|(a, b)| vec![a, b])
            ];
            ages(local_mix(), must.boxed(), false)
        },
        Aged::Bus => |_| ages(even_mix(false), any_op(), true),
        Aged::Alive => |_| ages(even_mix(true), any_op(), true),
    };
    let test: fn(&Age, &mut Cx) -> Verdict = match what {
        Aged::Bus => |c, cx| age_of(c, true, false, cx),
        Aged::Alive => |c, cx| age_of(c, false, false, cx),
        _ => |c, cx| age_of(c, true, true, cx),
    };
    Box::new(Gen::<Age> {
        name: "age",
        rule: "a cycle of calls was repeated at least 256 times and compared each time",
        quick: 300,
        thorough: 6_000,
        strat,
        test,
    })
}
