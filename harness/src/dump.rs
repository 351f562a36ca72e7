//! Everything a calibration exposes (also compiled into the libm build).
use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::{AccessPattern, Resolution, Subpage};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    I(u32),
    F(f32),
    /// An absent value.
    N,
}

pub fn constants<'a, C: CalibrationData<'a>>(c: &'a C) -> Vec<K> {
    // Bounds an endless pixel sequence.
    let n = 4 * <C::Camera as MelexisCamera>::NUM_PIXELS;
    let mut o: Vec<K> = vec![];
    let f = K::F;
    let i = |v: i16| K::I(u32::from(v as u16));
    let opt = |v: Option<f32>| v.map_or(K::N, K::F);
    let res = match c.resolution() {
        Resolution::Sixteen => 0,
        Resolution::Seventeen => 1,
        Resolution::Eighteen => 2,
        Resolution::Nineteen => 3,
    };
    o.extend([i(c.k_v_dd()), i(c.v_dd_25()), K::I(res), f(c.v_dd_0())]);
    o.extend([f(c.k_v_ptat()), f(c.k_t_ptat()), f(c.v_ptat_25()), f(c.alpha_ptat()), f(c.gain()), f(c.k_s_ta())]);
    o.extend(c.corner_temperatures().iter().map(|v| i(*v)));
    o.extend(c.k_s_to().iter().map(|v| f(*v)));
    o.extend(c.alpha_correction().iter().map(|v| f(*v)));
    o.extend([opt(c.emissivity()), opt(c.temperature_gradient_coefficient())]);
    for s in [Subpage::Zero, Subpage::One] {
        o.extend(c.offset_reference_pixels(s).take(n).map(|v| i(*v)));
        o.extend(c.alpha_pixels(s).take(n).map(|v| f(*v)));
        o.extend(c.k_v_pixels(s).take(n).map(|v| f(*v)));
        o.extend(c.k_ta_pixels(s).take(n).map(|v| f(*v)));
        o.extend([i(c.offset_reference_cp(s)), f(c.alpha_cp(s)), f(c.k_v_cp(s)), f(c.k_ta_cp(s))]);
        for a in [AccessPattern::Chess, AccessPattern::Interleave] {
            o.push(opt(c.access_pattern_compensation_cp(s, a)));
        }
    }
    for a in [AccessPattern::Chess, AccessPattern::Interleave] {
        o.extend(c.access_pattern_compensation_pixels(a).take(n).map(|v| opt(v.copied())));
    }
    o.extend(c.failed_pixels().iter_flagged().map(|v| K::I(v as u32)));
    o.push(K::I(u32::MAX));
    o.extend(c.outlier_pixels().iter_flagged().map(|v| K::I(v as u32)));
    o.push(K::I(u32::from(c.failed_pixels().any()) * 2 + u32::from(c.outlier_pixels().any())));
    o
}
