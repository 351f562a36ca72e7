//! C28: the library built with `libm` instead of `std` computes the same results.
//!
//! That build is a shared library of its own (`/verif/libm`), loaded here.
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

use mlx9064x::AccessPattern;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cases::*;
use crate::device::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::p_calc::{conv, lib_fused, lib_ir, lib_temps, pixel_bytes, Conv};
use crate::spec::*;

/// Kept in step with `libm/src/lib.rs`.
#[repr(C)]
struct Job {
    m641: bool,
    subpage1: bool,
    interleave: bool,
    has_reflected: bool,
    addr: u8,
    eeprom: *const u16,
    eeprom_words: usize,
    ram: *const u16,
    ram_words: usize,
    status: u16,
    control: u16,
    aux: [i16; 5],
    pixels: *const u8,
    pixel_bytes: usize,
    correction: f32,
    emissivity: f32,
    reflected: f32,
    constants: *mut u64,
    constants_room: usize,
    constants_len: usize,
    images: *mut f32,
    n: usize,
    ambient: [f32; 4],
}

type Run = unsafe extern "C" fn(*mut Job) -> i32;

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}

fn other() -> Run {
    static RUN: OnceLock<Run> = OnceLock::new();
    *RUN.get_or_init(|| {
        let path = std::env::var("MLX_LIBM_SO").unwrap_or_else(|_| "/verif/libm/target/release/libmlxlibm.so".into());
        let (p, n) = (CString::new(path.clone()).unwrap(), CString::new("mlx_libm_run").unwrap());
        // SAFETY: a library of our own, without initialisers.
        let f = unsafe {
            let lib = dlopen(p.as_ptr(), 2);
            if lib.is_null() {
                std::ptr::null_mut()
            } else {
                dlsym(lib, n.as_ptr())
            }
        };
        if f.is_null() {
            eprintln!("internal: cannot load {path}");
            std::process::exit(3);
        }
        // SAFETY: that is its type.
        unsafe { std::mem::transmute::<*mut c_void, Run>(f) }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Both {
    conv: Conv,
    /// The raw resolution the camera runs at.
    resolution: u8,
    status: u16,
    control: u16,
}

fn close(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
        || a.is_nan() && b.is_nan()
        || (f64::from(a) - f64::from(b)).abs() <= 4e-6 * f64::from(a).abs().max(f64::from(b).abs()) + 1e-37
}

type StdRun = (AnyCal, [Vec<f32>; 5], [f32; 4]);

#[allow(clippy::too_many_arguments)]
fn std_side(
    cam: Cam,
    eeprom: &[u16],
    ram: &[u16],
    bytes: &[u8],
    aux: &Aux,
    before: &[f32],
    k: &Conv,
    c: &Both,
    control: u16,
) -> Result<StdRun, String> {
    let s = k.s();
    let cal = load(cam, &to_bytes(eeprom)).map_err(|e| format!("loading: {e:?}"))?;
    let (mut ir, mut t, mut two) = (before.to_vec(), before.to_vec(), before.to_vec());
    let ta_ir = lib_ir(&cal, k, bytes, aux, &mut ir);
    let ta_t = lib_fused(&cal, k, bytes, aux, &mut t);
    two.copy_from_slice(&ir);
    lib_temps(&cal, k, ta_ir, &mut two);
    let mut dev = Dev::new(cam, 0x33, eeprom.to_vec());
    dev.ram = ram.to_vec();
    dev.status = c.status;
    dev.control = control;
    let bus = SimBus::new(dev);
    let mut d = driver_over_bus(&bus).map_err(|e| format!("creating the driver: {e:?}"))?;
    d.override_emissivity(k.emissivity);
    d.set_reflected_temperature(k.reflected);
    let (mut d_ir, mut d_t) = (before.to_vec(), before.to_vec());
    d.raw_subpage_to(sp(s), &mut d_ir).map_err(|e| format!("raw image: {e:?}"))?;
    let ta_dir = d.ambient_temperature().unwrap_or(f32::NAN);
    d.image_subpage_to(sp(s), &mut d_t).map_err(|e| format!("image: {e:?}"))?;
    let ta_dt = d.ambient_temperature().unwrap_or(f32::NAN);
    Ok((cal, [ir, t, two, d_ir, d_t], [ta_ir, ta_t, ta_dir, ta_dt]))
}

fn both(c: &Both, cx: &mut Cx) -> Verdict {
    let CalCase::Eeprom(e) = &c.conv.cal else { return Ok(()) };
    let cam = e.cam;
    let n = cam.pixels();
    let mut k = c.conv.clone();
    k.extra = 0;
    let (s, a) = (k.s(), k.ap());
    let eeprom = e.words();
    let ram = k.frame.ram(cam);
    let aux = k.frame.aux(s);
    let bytes = pixel_bytes(cam, &ram, s);
    let control = c.control & !(C_RES | C_PATTERN) | u16::from(c.resolution % 4) << 10 | if ap_bit(a) { C_PATTERN } else { 0 };
    let before: Vec<f32> = (0..n).map(|i| mixh(u64::from(k.dest), i as u64) as u16 as f32).collect();

    let mut consts = vec![0u64; 16_384];
    let mut images: Vec<f32> = (0..5).flat_map(|_| before.iter().copied()).collect();
    let mut job = Job {
        m641: cam == Cam::M641,
        subpage1: s == 1,
        interleave: a == AccessPattern::Interleave,
        has_reflected: k.reflected.is_some(),
        addr: 0x33,
        eeprom: eeprom.as_ptr(),
        eeprom_words: eeprom.len(),
        ram: ram.as_ptr(),
        ram_words: ram.len(),
        status: c.status,
        control,
        aux: [aux.vbe, aux.ptat, aux.vdd, aux.gain, aux.cp],
        pixels: bytes.as_ptr(),
        pixel_bytes: bytes.len(),
        correction: k.rc,
        emissivity: k.emissivity,
        reflected: k.reflected.unwrap_or(0.0),
        constants: consts.as_mut_ptr(),
        constants_room: consts.len(),
        constants_len: 0,
        images: images.as_mut_ptr(),
        n,
        ambient: [f32::NAN; 4],
    };
    let Ok(std_run) = no_panic("the std build", || std_side(cam, &eeprom, &ram, &bytes, &aux, &before, &k, c, control)) else {
        // What panics with std is not this property's business.
        return Ok(());
    };
    // SAFETY: all buffers outlive the call and have the sizes given.
    let code = unsafe { other()(&mut job) };

    let (cal, stds, [ta_ir, ta_t, ta_dir, ta_dt]) = match std_run {
        Ok(r) => r,
        Err(m) => {
            ensure!(code == 1 || code == 2, "std fails ({m}), libm does not");
            cx.hit("refused");
            return Ok(());
        }
    };
    ensure!(code != 1, "libm refuses an EEPROM that std accepts");
    ensure!(code == 0, "the libm build {}", if code == 3 { "panicked" } else { "failed on a working bus" });
    let mine = cal.dump();
    ensure!(mine.len() == job.constants_len, "std exposes {} constants, libm {}", mine.len(), job.constants_len);
    for (i, (x, y)) in mine.iter().zip(&consts).enumerate() {
        let same = x == y
            || x >> 32 == 1 && y >> 32 == 1 && close(f32::from_bits(*x as u32), f32::from_bits(*y as u32));
        ensure!(same, "constant {i} is {x:#x} with std, {y:#x} with libm");
    }

    // How far apart two correct builds may be, from the conditioning of the formulas.
    let reference = cal.reference();
    let shot = k.shot(&ram);
    let mut shot_d = k.shot(&ram);
    shot_d.rc = res_correction(with_res(&cal), u16::from(c.resolution % 4));
    let wants = [
        image(&reference, &shot, false),
        image(&reference, &shot, true),
        image(&reference, &shot, true),
        image(&reference, &shot_d, false),
        image(&reference, &shot_d, true),
    ];
    let names = ["IR image", "temperature image", "two-step temperature image", "driver's raw image", "driver's image"];
    let ambients = [Some((ta_ir, 0)), Some((ta_t, 1)), None, Some((ta_dir, 2)), Some((ta_dt, 3))];
    let mut compared = 0u64;
    for (i, std) in stds.iter().enumerate() {
        let libm = &images[i * n..][..n];
        let want = &wants[i];
        if let Some((x, j)) = ambients[i] {
            let y = job.ambient[j];
            if want.t_a.ok() && !close(x, y) {
                let d = (f64::from(x) - f64::from(y)).abs();
                ensure!(d <= 2.0 * want.t_a.tol(), "ambient temperature of the {} is {x} with std, {y} with libm", names[i]);
            }
        }
        for p in 0..n {
            let (x, y) = (std[p], libm[p]);
            let same = match &want.px[p] {
                None => x.to_bits() == y.to_bits(),
                Some(Want::Is(e)) => close(x, y) || (f64::from(x) - f64::from(y)).abs() <= 2.0 * e.tol(),
                Some(Want::Undefined) => x.is_finite() == y.is_finite(),
                Some(Want::Unknown) => continue,
            };
            ensure!(same, "{}: pixel {p} is {x} with std, {y} with libm", names[i]);
            compared += 1;
        }
    }
    cx.add("pixels_compared", compared);
    if wants.iter().any(|w| w.px.iter().flatten().any(|p| matches!(p, Want::Is(_)))) {
        cx.nontrivial();
    }
    Ok(())
}

fn with_res(cal: &AnyCal) -> u16 {
    crate::with_cal!(cal, c => {
        use mlx9064x::CalibrationData;
        res_raw(c.resolution())
    })
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        assumptions: vec!["compared on one target (x86-64 Linux), where both builds run"],
        families: vec![Box::new(Gen::<Both> {
            name: "builds",
            rule: "at least one pixel has a defined, well-conditioned value",
            quick: 32_000,
            thorough: 1_600_000,
            strat: |_| {
                let eep = any_cam().prop_flat_map(|c| {
                    prop_oneof![4 => eep_physical(c), 1 => eep_wild(c)].prop_map(CalCase::Eeprom)
                });
                let frame = prop_oneof![4 => frame_physical(), 1 => frame_any()].boxed();
                (conv(eep.boxed(), frame), 0u8..4, any::<u16>(), any::<u16>())
                    .prop_map(|(conv, resolution, status, control)| Both { conv, resolution, status, control })
                    .boxed()
            },
            test: both,
        })],
    }
}
