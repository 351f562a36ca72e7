//! The documented facts about the two cameras, written down independently of the code under test.
use serde::{Deserialize, Serialize};

use mlx9064x::{AccessPattern, FrameRate, Resolution, Subpage};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Cam {
    M640,
    M641,
}

pub const EEPROM_BASE: u16 = 0x2400;
pub const EEPROM_WORDS: usize = 832;
pub const EEPROM_BYTES: usize = EEPROM_WORDS * 2;
pub const RAM_BASE: u16 = 0x0400;
pub const STATUS: u16 = 0x8000;
pub const CONTROL: u16 = 0x800D;
pub const I2C_CONFIG: u16 = 0x800F;

impl Cam {
    pub const BOTH: [Cam; 2] = [Cam::M640, Cam::M641];

    pub fn width(self) -> usize {
        match self {
            Cam::M640 => 32,
            Cam::M641 => 16,
        }
    }
    pub fn height(self) -> usize {
        match self {
            Cam::M640 => 24,
            Cam::M641 => 12,
        }
    }
    pub fn pixels(self) -> usize {
        self.width() * self.height()
    }
    /// Last valid RAM address.
    pub fn ram_end(self) -> u16 {
        match self {
            Cam::M640 => 0x073F,
            Cam::M641 => 0x05BF,
        }
    }
    pub fn ram_words(self) -> usize {
        usize::from(self.ram_end() - RAM_BASE) + 1
    }
    fn aux(self) -> u16 {
        match self {
            Cam::M640 => 0x0700,
            Cam::M641 => 0x0580,
        }
    }
    pub fn a_vbe(self) -> u16 {
        self.aux()
    }
    pub fn a_ptat(self) -> u16 {
        self.aux() + 0x20
    }
    pub fn a_cp(self, s: usize) -> u16 {
        self.aux() + if s == 0 { 0x08 } else { 0x28 }
    }
    pub fn a_gain(self) -> u16 {
        self.aux() + 0x0A
    }
    pub fn a_vdd(self) -> u16 {
        self.aux() + 0x2A
    }
    /// Index (in RAM words) of a pixel as measured in a subpage.
    pub fn ram_index(self, s: usize, p: usize) -> usize {
        match self {
            Cam::M640 => p,
            Cam::M641 => (p / 32) * 64 + s * 32 + p % 32,
        }
    }
    /// RAM words that hold pixel data.
    pub fn ram_pixel_words(self) -> usize {
        match self {
            Cam::M640 => 768,
            Cam::M641 => 384,
        }
    }
    pub fn member(self, s: usize, ap: AccessPattern, p: usize) -> bool {
        match self {
            Cam::M641 => true,
            Cam::M640 => {
                let (r, c) = (p / 32, p % 32);
                match ap {
                    AccessPattern::Chess => (r + c) % 2 == s,
                    AccessPattern::Interleave => r % 2 == s,
                }
            }
        }
    }
    pub fn basic_range(self) -> usize {
        match self {
            Cam::M640 => 1,
            Cam::M641 => 2,
        }
    }
    pub fn self_heating(self) -> f64 {
        match self {
            Cam::M640 => 8.0,
            Cam::M641 => 5.0,
        }
    }
    pub fn ranges(self) -> usize {
        match self {
            Cam::M640 => 4,
            Cam::M641 => 8,
        }
    }
}

pub fn sp(s: usize) -> Subpage {
    if s == 0 {
        Subpage::Zero
    } else {
        Subpage::One
    }
}
pub fn sp_n(s: Subpage) -> usize {
    match s {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}
/// Control register bit 12.
pub fn ap(bit: bool) -> AccessPattern {
    if bit {
        AccessPattern::Chess
    } else {
        AccessPattern::Interleave
    }
}
pub fn ap_bit(a: AccessPattern) -> bool {
    a == AccessPattern::Chess
}
pub const RESOLUTIONS: [Resolution; 4] =
    [Resolution::Sixteen, Resolution::Seventeen, Resolution::Eighteen, Resolution::Nineteen];
pub const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];
pub fn res_raw(r: Resolution) -> u16 {
    RESOLUTIONS.iter().position(|x| *x == r).unwrap() as u16
}
pub fn rate_raw(r: FrameRate) -> u16 {
    RATES.iter().position(|x| *x == r).unwrap() as u16
}

/// 2^(calibrated bits - current bits)
pub fn res_correction(calibrated: u16, current: u16) -> f32 {
    (f64::from(calibrated) - f64::from(current)).exp2() as f32
}

// Register fields.
pub const S_SUBPAGE: u16 = 0x0001;
pub const S_NEW: u16 = 0x0008;
pub const S_OVERWRITE: u16 = 0x0010;
pub const S_START: u16 = 0x0020;
pub const C_SUBPAGES: u16 = 0x0001;
pub const C_STEP: u16 = 0x0002;
pub const C_HOLD: u16 = 0x0004;
pub const C_REPEAT: u16 = 0x0008;
pub const C_SUBPAGE: u16 = 0x0010;
pub const C_RATE: u16 = 0x0380;
pub const C_RES: u16 = 0x0C00;
pub const C_PATTERN: u16 = 0x1000;

// ------------------------------------------------------------------ Hamming code (MLX90641)

/// Data bits covered by each of the four Hamming parity bits, from the documented table.
const COVER: [&[u16]; 4] = [
    &[0, 1, 3, 4, 6, 8, 10],
    &[0, 2, 3, 5, 6, 9, 10],
    &[1, 2, 3, 7, 8, 9, 10],
    &[4, 5, 6, 7, 8, 9, 10],
];

pub fn hamming(data: u16) -> u16 {
    assert!(data < 0x800);
    let mut w = data;
    for (i, cover) in COVER.iter().enumerate() {
        let mut parity = 0;
        for b in cover.iter() {
            parity ^= (data >> b) & 1;
        }
        w |= parity << (11 + i);
    }
    // The last one makes the parity of the whole word even.
    w |= ((w.count_ones() & 1) as u16) << 15;
    w
}

/// Sign-extend the low `bits` bits.
pub fn sx(v: u16, bits: u32) -> i32 {
    let m = 1i32 << (bits - 1);
    let v = i32::from(v) & ((1 << bits) - 1);
    (v ^ m) - m
}
pub fn bits(v: u16, lo: u32, n: u32) -> u16 {
    (v >> lo) & ((1u32 << n) - 1) as u16
}
