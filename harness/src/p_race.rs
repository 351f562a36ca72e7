//! Frames that arrive while the driver is busy: an image is made of the words the camera returned
//! for it, and of one subpage.
use std::collections::BTreeMap;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::device::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::p_calc::{lib_fused, lib_ir, pixel_bytes, Conv};
use crate::p_driver::*;
use crate::spec::*;

/// A frame that is complete after the given number of transactions of a call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arrival {
    after: u8,
    frame: u8,
    s: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    history: History,
    /// Per operation, in order.
    arrivals: Vec<Vec<Arrival>>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Raced {
    Images,
    Frames,
    Syncs,
}

fn race(c: &Race, on: Raced, cx: &mut Cx) -> Verdict {
    let h = &c.history;
    let mut w = match no_panic("creating the driver", || start(h)) {
        Ok(Ok(w)) => w,
        _ => return Ok(()),
    };
    let cam = w.cal.cam();
    let (cal, skip) = match &h.cal {
        CalCase::Eeprom(e) => {
            let c = Cal::from_eeprom(e.cam, &e.words());
            let f = c.failed.clone();
            (c, f)
        }
        CalCase::Custom(_) => (w.cal.reference(), vec![]),
    };
    let default_emissivity = cal.emissivity.map_or(1.0, |e| e.v as f32);
    let mut emissivity = default_emissivity;
    let mut reflected = None;
    let mut tl = Tally::default();
    let mut busy = 0;
    for (i, op) in h.ops.iter().enumerate() {
        let at = |m: String| format!("operation {i} ({op:?}): {m}");
        w.prepare(op);
        let before = w.dest.clone();
        {
            let mut d = w.bus.0.borrow_mut();
            d.log.clear();
            d.trace = Some(vec![]);
            d.arrived = 0;
            d.arrivals.clear();
            let mut last = 0;
            for a in c.arrivals.get(i).map_or(&[][..], |v| v) {
                let ram = w.rams.get(usize::from(a.frame) % w.rams.len().max(1)).cloned();
                let after = u32::from(a.after).max(last);
                d.arrivals.push_back((after - last, Pending { ram, s: usize::from(a.s % 2) }));
                last = after;
            }
        }
        let result = {
            let (drv, dest) = (&mut w.drv, &mut w.dest);
            no_panic("the call", || apply(&mut **drv, op, dest))
        };
        let (log, trace, arrived, control) = {
            let mut d = w.bus.0.borrow_mut();
            d.arrivals.clear();
            (d.log.clone(), d.trace.take().unwrap_or_default(), d.arrived, d.control)
        };
        match op {
            Op::Emis(v) => emissivity = v.get(),
            Op::DefaultEmis => emissivity = default_emissivity,
            Op::Reflected(v) => reflected = v.map(F::get),
            _ => {}
        }
        let judged = match on {
            Raced::Images => is_image(op),
            Raced::Frames => *op == Op::IfReady,
            Raced::Syncs => matches!(op, Op::Sync(..)),
        };
        if !judged {
            if !matches!(result, Ok(Ok(_))) {
                return Ok(());
            }
            continue;
        }
        let val = result.map_err(at)?.map_err(|e| at(format!("failed with {e:?} on a working bus")))?;
        let statuses = |t: &[(u16, u16)]| -> Vec<u16> { t.iter().filter(|x| x.0 == STATUS).map(|x| x.1).collect() };
        if on == Raced::Syncs {
            let starts: Vec<usize> = (0..log.len()).filter(|k| matches!(log[*k], Tx::Write(..))).collect();
            ensure!(starts.len() == 1, "{}", at(format!("expected a single write, got {log:x?}")));
            ensure!(
                log.iter().all(|t| t.address() == STATUS),
                "{}",
                at(format!("did more than poll the status: {log:x?}"))
            );
            let seen = &statuses(&trace)[starts[0]..];
            let first = seen.iter().position(|v| v & S_NEW != 0);
            ensure!(
                first.is_some() && first == seen.len().checked_sub(1),
                "{}",
                at(format!("the status polls gave {seen:x?}: not returned when new data was reported"))
            );
            let s = w.bus.0.borrow().status;
            ensure!(s & S_NEW != 0, "{}", at(format!("the new frame is not flagged any more ({s:#06x})")));
            busy += u64::from(arrived);
            continue;
        }
        let seen = statuses(&trace);
        let candidates: Vec<usize> = match op {
            Op::ImageSub(s) | Op::RawSub(s) => vec![usize::from(*s % 2)],
            Op::IfReady => seen.iter().filter(|v| **v & S_NEW != 0).map(|v| usize::from(v & 1)).collect(),
            _ => seen.iter().map(|v| usize::from(v & 1)).collect(),
        };
        if *op == Op::IfReady && val == Val::Bool(false) {
            ensure!(
                seen.iter().all(|v| v & S_NEW == 0),
                "{}",
                at(format!("reported no new data although the status was {seen:x?}"))
            );
            ensure!(
                before.iter().zip(&w.dest).all(|(a, b)| a.to_bits() == b.to_bits()),
                "{}",
                at("the destination changed without new data".into())
            );
            continue;
        }
        ensure!(
            !candidates.is_empty(),
            "{}",
            at(format!("returned {val:?} although the status was {seen:x?}"))
        );
        // The words this image was made of.
        let mut words = BTreeMap::new();
        let mut twice = false;
        for (a, v) in trace.iter().filter(|x| x.0 >= RAM_BASE && x.0 <= cam.ram_end()) {
            twice |= words.insert(*a, *v).is_some_and(|o| o != *v);
        }
        if twice {
            cx.hit("words_read_twice");
            return Ok(());
        }
        let ram: Vec<u16> = (0..cam.ram_words()).map(|k| *words.get(&(RAM_BASE + k as u16)).unwrap_or(&0x5A5A)).collect();
        let raw = matches!(op, Op::RawSub(_));
        let mut verdict = Ok(());
        for s in candidates {
            let shot = Shot {
                ram: &ram,
                s,
                ap: ap(control & C_PATTERN != 0),
                rc: res_correction(cal.res, (control & C_RES) >> 10),
                emissivity,
                reflected,
            };
            let t_a = w.drv.ambient_temperature().ok_or_else(|| at("no ambient temperature after an image".into()))?;
            verdict = if on == Raced::Images {
                let want = image(&cal, &shot, !raw);
                compare("image", &want, &before, &w.dest, &skip, &mut tl)
                    .and_then(|()| same("ambient temperature", want.t_a, t_a).map(|_| ()))
            } else {
                let conv = Conv {
                    cal: h.cal.clone(),
                    frame: h.frames[0].clone(),
                    s: s as u8,
                    chess: ap_bit(shot.ap),
                    rc: shot.rc,
                    emissivity,
                    reflected,
                    dest: 0,
                    extra: 0,
                };
                let mut d = before.clone();
                let convert = if raw { lib_ir } else { lib_fused };
                convert(&w.cal, &conv, &pixel_bytes(cam, &ram, s), &shot.aux(cam), &mut d);
                match (0..d.len()).find(|p| !close(d[*p], w.dest[*p])) {
                    Some(p) => Err(format!("pixel {p} is {} instead of {}", w.dest[p], d[p])),
                    None => Ok(()),
                }
            };
            if verdict.is_ok() {
                break;
            }
        }
        verdict.map_err(|m| at(format!("{m} (with the words and the subpage the camera returned)")))?;
        cx.hit("images");
        busy += u64::from(arrived);
    }
    cx.add("frames_arrived_during_calls", busy);
    cx.add("pixels_compared", tl.decided);
    if busy > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn close(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || !a.is_finite() && !b.is_finite() || (a - b).abs() <= 0.01 * (a.abs() + 273.0)
}

fn races(cal: BoxedStrategy<CalCase>, m: Mix, len: usize) -> BoxedStrategy<Race> {
    let arrival = || (0u8..36, any::<u8>(), 0u8..2).prop_map(|(after, frame, s)| Arrival { after, frame, s });
    let arrivals = proptest::collection::vec(proptest::collection::vec(arrival(), 0..3), 1..len);
    (history(cal, frame_physical(), ops(m, len)), arrivals)
        .prop_map(|(history, mut arrivals)| {
            for a in &mut arrivals {
                a.sort_by_key(|a| a.after);
            }
            Race { history, arrivals }
        })
        .boxed()
}

pub fn family(what: Raced) -> Box<dyn Family> {
    let strat: fn(Tier) -> BoxedStrategy<Race> = match what {
        Raced::Images => |t| races(eeprom_cal(), image_mix(), if t == Tier::Quick { 8 } else { 16 }),
        Raced::Frames => |t| races(small_cal(), ready_mix(), if t == Tier::Quick { 8 } else { 16 }),
        Raced::Syncs => |t| races(small_cal(), sync_mix(), if t == Tier::Quick { 8 } else { 16 }),
    };
    let test: fn(&Race, &mut Cx) -> Verdict = match what {
        Raced::Images => |c, cx| race(c, Raced::Images, cx),
        Raced::Frames => |c, cx| race(c, Raced::Frames, cx),
        Raced::Syncs => |c, cx| race(c, Raced::Syncs, cx),
    };
    Box::new(Gen::<Race> {
        name: "arrivals",
        rule: "a frame arrived during a call that was judged",
        quick: 40_000,
        thorough: 1_600_000,
        strat,
        test,
    })
}
