//! A simulated camera on an I²C bus, and a uniform view of the driver types.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

use embedded_hal::blocking::i2c;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{
    AccessPattern, CameraDriver, Error, FrameRate, LibraryError, Mlx90640Driver, Mlx90641Driver, Resolution, Subpage,
};

use crate::cases::AnyCal;
#[cfg(feature = "custom")]
use crate::cases::SynCal;
use crate::spec::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RdErr(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrErr(pub u32);

macro_rules! error {
    ($t:ident, $text:literal) => {
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, $text, self.0)
            }
        }
        impl std::error::Error for $t {}
    };
}
error!(RdErr, "the bus failed to read ({})");
error!(WrErr, "the bus failed to write ({})");

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tx {
    /// address, words, succeeded
    Read(u16, usize, bool),
    /// address, value, succeeded
    Write(u16, u16, bool),
}

impl Tx {
    pub fn ok(&self) -> bool {
        matches!(self, Tx::Read(_, _, true) | Tx::Write(_, _, true))
    }
    pub fn address(&self) -> u16 {
        match *self {
            Tx::Read(a, ..) | Tx::Write(a, ..) => a,
        }
    }
}

#[derive(Clone)]
pub struct Pending {
    pub ram: Option<Vec<u16>>,
    pub s: usize,
}

#[derive(Clone)]
pub struct Dev {
    pub cam: Cam,
    pub addr: u8,
    pub eeprom: Vec<u16>,
    pub ram: Vec<u16>,
    pub status: u16,
    pub control: u16,
    pub i2c_config: u16,
    pub log: Vec<Tx>,
    /// Departures from the documented use of the bus.
    pub breaches: Vec<String>,
    /// Set once the driver exists: the EEPROM is not to be read any more.
    pub sealed: bool,
    /// Number of further transactions that succeed before one fails.
    pub fault_in: Option<u32>,
    pub fault_code: u32,
    /// Bytes written to the buffer by a failing read.
    pub fault_fill: usize,
    pub faults_hit: u32,
    /// Polls of the status register until the running measurement completes.
    pub polls_left: u32,
    /// When the start bit is cleared: 0 with the measurement complete, 1 at once,
    /// 2 at the first poll, 3 never.
    pub start_mode: u8,
    /// What `start measurement` will lead to.
    pub on_start: VecDeque<(u32, Pending)>,
    running: Option<Pending>,
    pub starts: u32,
    /// Bounds runaway loops.
    pub budget: u32,
    pub exhausted: bool,
    /// Frames that arrive by themselves once the given number of transactions has passed.
    pub arrivals: VecDeque<(u32, Pending)>,
    /// Arrivals so far.
    pub arrived: u32,
    /// The words delivered by reads, when asked for.
    pub trace: Option<Vec<(u16, u16)>>,
}

impl Dev {
    pub fn new(cam: Cam, addr: u8, eeprom: Vec<u16>) -> Dev {
        Dev {
            cam,
            addr,
            eeprom,
            ram: vec![0; cam.ram_words()],
            status: 0,
            control: if cam == Cam::M640 { 0x1901 } else { 0x0901 },
            i2c_config: 0,
            log: vec![],
            breaches: vec![],
            sealed: false,
            fault_in: None,
            fault_code: 0,
            fault_fill: 0,
            faults_hit: 0,
            polls_left: 0,
            start_mode: 0,
            on_start: VecDeque::new(),
            running: None,
            starts: 0,
            budget: 100_000,
            exhausted: false,
            arrivals: VecDeque::new(),
            arrived: 0,
            trace: None,
        }
    }

    /// Time passes.
    fn tick(&mut self) {
        while let Some((0, _)) = self.arrivals.front() {
            if let Some((_, p)) = self.arrivals.pop_front() {
                self.frame(p.ram, p.s);
                self.arrived += 1;
            }
        }
        if let Some(a) = self.arrivals.front_mut() {
            a.0 -= 1;
        }
    }

    fn breach(&mut self, m: String) {
        if self.breaches.len() < 8 {
            self.breaches.push(m);
        }
    }

    fn faulty(&mut self) -> bool {
        match self.fault_in {
            Some(0) => {
                self.fault_in = None;
                self.faults_hit += 1;
                true
            }
            Some(n) => {
                self.fault_in = Some(n - 1);
                false
            }
            None => false,
        }
    }

    fn spend(&mut self) {
        if self.budget == 0 {
            self.exhausted = true;
            panic!("bus transaction budget exhausted: the driver does not terminate");
        }
        self.budget -= 1;
        self.tick();
    }

    fn word(&self, a: u16) -> Option<u16> {
        match a {
            STATUS => Some(self.status),
            CONTROL => Some(self.control),
            I2C_CONFIG => Some(self.i2c_config),
            _ if a >= EEPROM_BASE && usize::from(a - EEPROM_BASE) < EEPROM_WORDS => {
                Some(self.eeprom[usize::from(a - EEPROM_BASE)])
            }
            _ if a >= RAM_BASE && a <= self.cam.ram_end() => Some(self.ram[usize::from(a - RAM_BASE)]),
            _ => None,
        }
    }

    fn read(&mut self, addr: u8, out: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        self.spend();
        if addr != self.addr {
            self.breach(format!("read addressed to device {addr:#04x}, the camera is at {:#04x}", self.addr));
        }
        if out.len() != 2 {
            self.breach(format!("read with a {}-byte memory address", out.len()));
        }
        let a = out.iter().take(2).fold(0u16, |a, b| a << 8 | u16::from(*b));
        let n = buf.len() / 2;
        if buf.is_empty() || buf.len() % 2 != 0 {
            self.breach(format!("read of {} bytes at {a:#06x}", buf.len()));
        }
        let end = usize::from(a) + n.max(1) - 1;
        let in_eeprom = a >= EEPROM_BASE && end < usize::from(EEPROM_BASE) + EEPROM_WORDS;
        let in_ram = a >= RAM_BASE && end <= usize::from(self.cam.ram_end());
        let register = n == 1 && (a == STATUS || a == CONTROL || a == I2C_CONFIG);
        if !(in_eeprom || in_ram || register) {
            self.breach(format!("read of {n} words at {a:#06x} is outside the documented memory"));
        }
        if in_eeprom && self.sealed {
            self.breach(format!("EEPROM read at {a:#06x} after construction"));
        }
        if self.faulty() {
            for (i, b) in buf.iter_mut().enumerate().take(self.fault_fill) {
                *b = 0xA5 ^ i as u8;
            }
            self.log.push(Tx::Read(a, n, false));
            return Err(RdErr(self.fault_code));
        }
        self.log.push(Tx::Read(a, n, true));
        if register && a == STATUS {
            self.poll();
        }
        for (i, c) in buf.chunks_mut(2).enumerate() {
            let at = a.wrapping_add(i as u16);
            let w = self.word(at).unwrap_or(0xDEAD);
            if let Some(t) = &mut self.trace {
                t.push((at, w));
            }
            let w = w.to_be_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        Ok(())
    }

    /// The status register is being looked at: a running measurement makes progress.
    fn poll(&mut self) {
        if self.running.is_some() {
            if self.start_mode == 2 {
                self.status &= !S_START;
            }
            if self.polls_left > 1 {
                self.polls_left -= 1;
            } else if let Some(p) = self.running.take() {
                self.polls_left = 0;
                if self.start_mode != 3 {
                    self.status &= !S_START;
                }
                self.frame(p.ram, p.s);
            }
        }
    }

    pub fn measuring(&self) -> bool {
        self.running.is_some()
    }

    /// The camera finishes a measurement.
    pub fn frame(&mut self, ram: Option<Vec<u16>>, s: usize) {
        if let Some(r) = ram {
            self.ram = r;
        }
        self.status = self.status & !0x0007 | s as u16 | S_NEW;
    }

    fn write(&mut self, addr: u8, out: &[u8]) -> Result<(), WrErr> {
        self.spend();
        if addr != self.addr {
            self.breach(format!("write addressed to device {addr:#04x}, the camera is at {:#04x}", self.addr));
        }
        let a = out.iter().take(2).fold(0u16, |a, b| a << 8 | u16::from(*b));
        if out.len() != 4 {
            self.breach(format!("write of {} bytes", out.len()));
        }
        let v = out.iter().skip(2).take(2).fold(0u16, |a, b| a << 8 | u16::from(*b));
        if a != STATUS && a != CONTROL {
            self.breach(format!("write to {a:#06x}"));
        }
        if self.faulty() {
            self.log.push(Tx::Write(a, v, false));
            return Err(WrErr(self.fault_code));
        }
        self.log.push(Tx::Write(a, v, true));
        match a {
            STATUS => {
                let old = self.status;
                // The subpage is read-only, new data can only be cleared.
                self.status = v & !0x000F | old & 0x0007 | old & v & S_NEW;
                if v & S_START != 0 {
                    self.starts += 1;
                    if let Some((polls, p)) = self.on_start.pop_front() {
                        self.polls_left = polls.max(1);
                        self.running = Some(p);
                        if self.start_mode == 1 {
                            self.status &= !S_START;
                        }
                    }
                }
            }
            CONTROL => self.control = v,
            I2C_CONFIG => self.i2c_config = v,
            _ => {}
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct SimBus(pub Rc<RefCell<Dev>>);

impl SimBus {
    pub fn new(dev: Dev) -> SimBus {
        SimBus(Rc::new(RefCell::new(dev)))
    }
}

impl i2c::WriteRead for SimBus {
    type Error = RdErr;
    fn write_read(&mut self, addr: u8, out: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        self.0.borrow_mut().read(addr, out, buf)
    }
}

impl i2c::Write for SimBus {
    type Error = WrErr;
    fn write(&mut self, addr: u8, out: &[u8]) -> Result<(), WrErr> {
        self.0.borrow_mut().write(addr, out)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DErr {
    Read(u32),
    Write(u32),
    Lib(LibraryError),
}

impl<B> From<Error<B>> for DErr
where
    B: i2c::WriteRead<Error = RdErr> + i2c::Write<Error = WrErr>,
{
    fn from(e: Error<B>) -> DErr {
        match e {
            Error::I2cWriteReadError(RdErr(n)) => DErr::Read(n),
            Error::I2cWriteError(WrErr(n)) => DErr::Write(n),
            Error::LibraryError(l) => DErr::Lib(l),
        }
    }
}

type R<T> = Result<T, DErr>;

pub trait AnyDriver {
    fn last_measured_subpage(&mut self) -> R<Subpage>;
    fn data_available(&mut self) -> R<Option<Subpage>>;
    fn reset_data_available(&mut self) -> R<()>;
    fn overwrite_enabled(&mut self) -> R<bool>;
    fn set_overwrite_enabled(&mut self, v: bool) -> R<()>;
    fn subpages_enabled(&mut self) -> R<bool>;
    fn set_use_subpages(&mut self, v: bool) -> R<()>;
    fn data_hold_enabled(&mut self) -> R<bool>;
    fn set_data_hold(&mut self, v: bool) -> R<()>;
    fn subpage_repeat(&mut self) -> R<bool>;
    fn set_subpage_repeat(&mut self, v: bool) -> R<()>;
    fn selected_subpage(&mut self) -> R<Subpage>;
    fn set_subpage(&mut self, v: Subpage) -> R<()>;
    fn frame_rate(&mut self) -> R<FrameRate>;
    fn set_frame_rate(&mut self, v: FrameRate) -> R<()>;
    fn resolution(&mut self) -> R<Resolution>;
    fn set_resolution(&mut self, v: Resolution) -> R<()>;
    fn access_pattern(&mut self) -> R<AccessPattern>;
    fn set_access_pattern(&mut self, v: AccessPattern) -> R<()>;
    fn effective_emissivity(&self) -> f32;
    fn override_emissivity(&mut self, v: f32);
    fn use_default_emissivity(&mut self);
    fn reflected_temperature(&self) -> Option<f32>;
    fn set_reflected_temperature(&mut self, v: Option<f32>);
    fn ambient_temperature(&self) -> Option<f32>;
    fn height(&self) -> usize;
    fn width(&self) -> usize;
    fn raw_subpage_to(&mut self, s: Subpage, d: &mut [f32]) -> R<()>;
    fn image_subpage_to(&mut self, s: Subpage, d: &mut [f32]) -> R<()>;
    fn image_to(&mut self, d: &mut [f32]) -> R<()>;
    fn image_if_ready(&mut self, d: &mut [f32]) -> R<bool>;
    fn synchronize(&mut self) -> R<()>;
    fn copy(&self) -> Box<dyn AnyDriver>;
}

macro_rules! fwd {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        $(fn $name(&mut self, $($a: $t),*) -> R<$r> { Ok(CameraDriver::$name(self, $($a),*)?) })*
    };
}

macro_rules! any_driver {
    ($clb:ty) => {
        // Generic in the sizes, so that only the type aliases fix them.
        impl<B, const H: usize, const N: usize> AnyDriver for CameraDriver<$clb, B, H, N>
        where
            B: i2c::WriteRead<Error = RdErr> + i2c::Write<Error = WrErr> + Clone + 'static,
        {
            fwd! {
                last_measured_subpage() -> Subpage;
                data_available() -> Option<Subpage>;
                reset_data_available() -> ();
                overwrite_enabled() -> bool;
                set_overwrite_enabled(v: bool) -> ();
                subpages_enabled() -> bool;
                set_use_subpages(v: bool) -> ();
                data_hold_enabled() -> bool;
                set_data_hold(v: bool) -> ();
                subpage_repeat() -> bool;
                set_subpage_repeat(v: bool) -> ();
                selected_subpage() -> Subpage;
                set_subpage(v: Subpage) -> ();
                frame_rate() -> FrameRate;
                set_frame_rate(v: FrameRate) -> ();
                resolution() -> Resolution;
                set_resolution(v: Resolution) -> ();
                access_pattern() -> AccessPattern;
                set_access_pattern(v: AccessPattern) -> ();
                synchronize() -> ();
            }
            fn copy(&self) -> Box<dyn AnyDriver> {
                Box::new(self.clone())
            }
            fn effective_emissivity(&self) -> f32 {
                CameraDriver::effective_emissivity(self)
            }
            fn override_emissivity(&mut self, v: f32) {
                CameraDriver::override_emissivity(self, v)
            }
            fn use_default_emissivity(&mut self) {
                CameraDriver::use_default_emissivity(self)
            }
            fn reflected_temperature(&self) -> Option<f32> {
                CameraDriver::reflected_temperature(self)
            }
            fn set_reflected_temperature(&mut self, v: Option<f32>) {
                CameraDriver::set_reflected_temperature(self, v)
            }
            fn ambient_temperature(&self) -> Option<f32> {
                CameraDriver::ambient_temperature(self)
            }
            fn height(&self) -> usize {
                CameraDriver::height(self)
            }
            fn width(&self) -> usize {
                CameraDriver::width(self)
            }
            fn raw_subpage_to(&mut self, s: Subpage, d: &mut [f32]) -> R<()> {
                Ok(self.generate_raw_image_subpage_to(s, d)?)
            }
            fn image_subpage_to(&mut self, s: Subpage, d: &mut [f32]) -> R<()> {
                Ok(self.generate_image_subpage_to(s, d)?)
            }
            fn image_to(&mut self, d: &mut [f32]) -> R<()> {
                Ok(self.generate_image_to(d)?)
            }
            fn image_if_ready(&mut self, d: &mut [f32]) -> R<bool> {
                Ok(self.generate_image_if_ready(d)?)
            }
        }
    };
}

any_driver!(Mlx90640Calibration);
any_driver!(Mlx90641Calibration);
#[cfg(feature = "custom")]
any_driver!(SynCal<Mlx90640>);
#[cfg(feature = "custom")]
any_driver!(SynCal<Mlx90641>);

/// A driver on any bus; with no calibration given, it loads that over the bus.
pub fn driver_on<B>(bus: B, cam: Cam, addr: u8, cal: Option<&AnyCal>) -> R<Box<dyn AnyDriver>>
where
    B: i2c::WriteRead<Error = RdErr> + i2c::Write<Error = WrErr> + Clone + 'static,
{
    #[cfg(feature = "custom")]
    type S640<B> = CameraDriver<SynCal<Mlx90640>, B, 24, 1536>;
    #[cfg(feature = "custom")]
    type S641<B> = CameraDriver<SynCal<Mlx90641>, B, 12, 384>;
    Ok(match (cal, cam) {
        (None, Cam::M640) => Box::new(Mlx90640Driver::new(bus, addr)?),
        (None, Cam::M641) => Box::new(Mlx90641Driver::new(bus, addr)?),
        (Some(AnyCal::E640(c)), _) => Box::new(Mlx90640Driver::new_with_calibration(bus, addr, (**c).clone())?),
        (Some(AnyCal::E641(c)), _) => Box::new(Mlx90641Driver::new_with_calibration(bus, addr, (**c).clone())?),
        #[cfg(feature = "custom")]
        (Some(AnyCal::S640(c)), _) => Box::new(S640::new_with_calibration(bus, addr, (**c).clone())?),
        #[cfg(feature = "custom")]
        (Some(AnyCal::S641(c)), _) => Box::new(S641::new_with_calibration(bus, addr, (**c).clone())?),
    })
}

/// A driver that loads its calibration over the bus.
pub fn driver_over_bus(bus: &SimBus) -> R<Box<dyn AnyDriver>> {
    let (cam, addr) = {
        let d = bus.0.borrow();
        (d.cam, d.addr)
    };
    driver_on(bus.clone(), cam, addr, None)
}

/// A driver with the given calibration.
pub fn driver_with(bus: &SimBus, cal: &AnyCal) -> R<Box<dyn AnyDriver>> {
    let addr = bus.0.borrow().addr;
    driver_on(bus.clone(), cal.cam(), addr, Some(cal))
}

/// Several cameras on one bus, told apart by their addresses.
#[derive(Clone)]
pub struct Hub(pub Rc<Vec<SimBus>>);

impl Hub {
    fn at(&self, addr: u8) -> Option<&SimBus> {
        self.0.iter().find(|d| d.0.borrow().addr == addr)
    }
}

pub const NOBODY: u32 = 0x000A_DD12;

impl i2c::WriteRead for Hub {
    type Error = RdErr;
    fn write_read(&mut self, addr: u8, out: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        match self.at(addr) {
            Some(d) => d.0.borrow_mut().read(addr, out, buf),
            None => Err(RdErr(NOBODY)),
        }
    }
}

impl i2c::Write for Hub {
    type Error = WrErr;
    fn write(&mut self, addr: u8, out: &[u8]) -> Result<(), WrErr> {
        match self.at(addr) {
            Some(d) => d.0.borrow_mut().write(addr, out),
            None => Err(WrErr(NOBODY)),
        }
    }
}

/// A bus whose copies reach a device of their own, in the state of the original device.
pub struct Fork {
    pub dev: SimBus,
    pub forks: Rc<RefCell<Vec<SimBus>>>,
}

impl Clone for Fork {
    fn clone(&self) -> Fork {
        let dev = SimBus::new(self.dev.0.borrow().clone());
        self.forks.borrow_mut().push(dev.clone());
        Fork { dev, forks: self.forks.clone() }
    }
}

impl i2c::WriteRead for Fork {
    type Error = RdErr;
    fn write_read(&mut self, addr: u8, out: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        self.dev.0.borrow_mut().read(addr, out, buf)
    }
}

impl i2c::Write for Fork {
    type Error = WrErr;
    fn write(&mut self, addr: u8, out: &[u8]) -> Result<(), WrErr> {
        self.dev.0.borrow_mut().write(addr, out)
    }
}
