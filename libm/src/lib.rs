//! The library built without `std`, behind a C interface: the harness loads this next to its own
//! (std) build of the same sources and compares the two.
use std::panic::{catch_unwind, AssertUnwindSafe};

use embedded_hal::blocking::i2c;
use mlx9064x::calculations::{raw_ir_to_temperatures, raw_pixels_to_ir_data, raw_pixels_to_temperatures, RamData};
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{AccessPattern, CameraDriver, Mlx90640Driver, Mlx90641Driver, Subpage};

#[path = "../../harness/src/dump.rs"]
mod dump;
use dump::{constants, K};

/// Kept in step with `p_libm.rs`.
#[repr(C)]
pub struct Job {
    pub m641: bool,
    pub subpage1: bool,
    pub interleave: bool,
    pub has_reflected: bool,
    pub addr: u8,
    pub eeprom: *const u16,
    pub eeprom_words: usize,
    pub ram: *const u16,
    pub ram_words: usize,
    pub status: u16,
    pub control: u16,
    pub aux: [i16; 5],
    pub pixels: *const u8,
    pub pixel_bytes: usize,
    pub correction: f32,
    pub emissivity: f32,
    pub reflected: f32,
    /// Filled in: kinds (0 integer, 1 float, 2 absent) and bits of the constants.
    pub constants: *mut u64,
    pub constants_room: usize,
    pub constants_len: usize,
    /// Filled in: five images of `n` pixels each.
    pub images: *mut f32,
    pub n: usize,
    /// Filled in: ambient temperatures of IR, one-pass, driver.
    pub ambient: [f32; 4],
}

struct Bus<'a> {
    eeprom: &'a [u16],
    ram: &'a [u16],
    regs: [u16; 2],
}

impl Bus<'_> {
    fn word(&self, a: u16) -> u16 {
        match a {
            0x8000 => self.regs[0],
            0x800D => self.regs[1],
            0x2400..=0x273F => self.eeprom[usize::from(a - 0x2400)],
            0x0400.. if usize::from(a - 0x0400) < self.ram.len() => self.ram[usize::from(a - 0x0400)],
            _ => 0,
        }
    }
}

impl i2c::WriteRead for Bus<'_> {
    type Error = ();
    fn write_read(&mut self, _: u8, out: &[u8], buf: &mut [u8]) -> Result<(), ()> {
        let a = u16::from_be_bytes([out[0], out[1]]);
        for (i, c) in buf.chunks_mut(2).enumerate() {
            let w = self.word(a.wrapping_add(i as u16)).to_be_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        Ok(())
    }
}

impl i2c::Write for Bus<'_> {
    type Error = ();
    fn write(&mut self, _: u8, out: &[u8]) -> Result<(), ()> {
        let v = u16::from_be_bytes([out[2], out[3]]);
        match u16::from_be_bytes([out[0], out[1]]) {
            0x8000 => self.regs[0] = v,
            0x800D => self.regs[1] = v,
            _ => {}
        }
        Ok(())
    }
}

/// 0: done, 1: the EEPROM was refused, 2: a driver call failed, 3: panic.
///
/// # Safety
/// The pointers of `job` must be valid for the lengths given.
#[no_mangle]
pub unsafe extern "C" fn mlx_libm_run(job: *mut Job) -> i32 {
    let job = &mut *job;
    catch_unwind(AssertUnwindSafe(|| unsafe {
        if job.m641 {
            work641(job)
        } else {
            work640(job)
        }
    }))
    .unwrap_or(3)
}

macro_rules! work {
    ($name:ident, $cam:ty, $cal:ty, $driver:ident) => {
        unsafe fn $name(job: &mut Job) -> i32 {
            let eeprom = std::slice::from_raw_parts(job.eeprom, job.eeprom_words);
            let ram = std::slice::from_raw_parts(job.ram, job.ram_words);
            let pixels = std::slice::from_raw_parts(job.pixels, job.pixel_bytes);
            let images = std::slice::from_raw_parts_mut(job.images, 5 * job.n);
            let out = std::slice::from_raw_parts_mut(job.constants, job.constants_room);
            let bytes: Vec<u8> = eeprom.iter().flat_map(|w| w.to_be_bytes()).collect();
            let Ok(cal) = <$cal>::from_data(&bytes) else { return 1 };
            let k = constants(&cal);
            job.constants_len = k.len();
            for (o, k) in out.iter_mut().zip(k) {
                *o = match k {
                    K::I(v) => u64::from(v),
                    K::F(v) => 1 << 32 | u64::from(v.to_bits()),
                    K::N => 2 << 32,
                };
            }
            let s = if job.subpage1 { Subpage::One } else { Subpage::Zero };
            let a = if job.interleave { AccessPattern::Interleave } else { AccessPattern::Chess };
            let reflected = job.has_reflected.then_some(job.reflected);
            let x = job.aux;
            let data = || RamData {
                t_a_v_be: x[0],
                t_a_ptat: x[1],
                v_dd_pixel: x[2],
                gain: x[3],
                compensation_pixel: x[4],
            };
            let (ir, rest) = images.split_at_mut(job.n);
            let (t, rest) = rest.split_at_mut(job.n);
            let (two, rest) = rest.split_at_mut(job.n);
            let (d_ir, d_t) = rest.split_at_mut(job.n);
            let (e, rc) = (job.emissivity, job.correction);
            let members = || <$cam>::pixels_in_subpage(s, a).into_iter();
            job.ambient[0] = raw_pixels_to_ir_data(&cal, e, rc, pixels, data(), s, a, &mut members(), ir);
            two.copy_from_slice(ir);
            raw_ir_to_temperatures(&cal, e, job.ambient[0], reflected, s, &mut members(), two);
            job.ambient[1] =
                raw_pixels_to_temperatures(&cal, e, reflected, rc, pixels, data(), s, a, &mut members(), t);
            let bus = Bus { eeprom, ram, regs: [job.status, job.control] };
            let Ok(mut d) = $driver::new(bus, job.addr) else { return 2 };
            d.override_emissivity(e);
            d.set_reflected_temperature(reflected);
            let mut go = |d: &mut CameraDriver<_, _, _, _>| -> Result<(), mlx9064x::Error<Bus>> {
                d.generate_raw_image_subpage_to(s, d_ir)?;
                job.ambient[2] = d.ambient_temperature().unwrap_or(f32::NAN);
                d.generate_image_subpage_to(s, d_t)?;
                job.ambient[3] = d.ambient_temperature().unwrap_or(f32::NAN);
                Ok(())
            };
            if go(&mut d).is_err() {
                return 2;
            }
            0
        }
    };
}

work!(work640, Mlx90640, Mlx90640Calibration, Mlx90640Driver);
work!(work641, Mlx90641, Mlx90641Calibration, Mlx90641Driver);
