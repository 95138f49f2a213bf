//! Boundary-heavy generators of values.

use crate::core::Rng;
use crate::iv::Iv;
use crate::model::*;

/// A supported day number.
pub fn day(r: &mut Rng) -> i64 {
    let n = match r.below(12) {
        0 => r.range(DMIN, DMAX),
        1 => DMIN + r.range(0, 800),
        2 => DMAX - r.range(0, 800),
        3 => r.range(-800, 800),
        4 => {
            // edges of months and years around interesting years
            let y = *r.pick(&[
                -4712i64, -4000, -401, -400, -399, -101, -100, -99, -10, -9, -4, -1, 0, 1, 2, 4, 9, 10, 11,
                99, 100, 101, 399, 400, 401, 999, 1000, 1001, 1582, 1600, 1700, 1752, 1899, 1900, 1901,
                1969, 1970, 1999, 2000, 2001, 2004, 2069, 2070, 2100, 2400, 9999, 10000, 10001,
                99999, 100000, 294276, 294277, 999999, 1000000, 5874896, 5874897,
            ]);
            let m = r.range(1, 12);
            let n = day_of(y, m, *r.pick(&[1, 2, 28, mdays(y, m)])) + r.range(-1, 1);
            n
        }
        5 => {
            let y = r.range(-4712, 3000);
            day_of(y, *r.pick(&[1, 2, 3, 12]), 1) + r.range(-4, 4)
        }
        6 => {
            // leap days and their neighbours
            let y = r.range(-1178, 1250) * 4;
            day_of(y, 3, 1) + r.range(-2, 1)
        }
        7 => day_of(r.range(-4712, 9999), 1, 1) + r.range(0, 365),
        8 => {
            // century and millennium edges
            let y = r.range(-47, 300) * 100 + r.range(-1, 1);
            day_of(y, *r.pick(&[1, 12]), 1) + r.range(-1, 31)
        }
        9 => r.range(-(1 << 20), 1 << 20),
        10 => (1i64 << r.range(0, 30)) * if r.chance(1, 2) { 1 } else { -1 },
        _ => day_of(r.range(1, 2200), r.range(1, 12), r.range(1, 28)),
    };
    n.clamp(DMIN, DMAX)
}

/// A day whose midnight is a supported timestamp.
pub fn tsday(r: &mut Rng) -> i64 {
    let hi = TMAX.div_euclid(DAY);
    let n = match r.below(6) {
        0 => r.range(DMIN, hi),
        1 => hi - r.range(0, 500),
        _ => day(r),
    };
    if n > hi {
        r.range(DMIN, hi)
    } else {
        n
    }
}

/// microseconds of a day, 0..DAY
pub fn tod(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => DAY - 1 - r.range(0, 3),
        2 => r.range(0, 23) * HOUR + r.range(0, 1) * (HOUR - 1),
        3 => r.range(0, 1439) * MINUTE + *r.pick(&[0, 1, MINUTE - 1]),
        4 => r.range(0, 86399) * SEC,
        5 => r.range(0, 86399) * SEC + *r.pick(&[1, 10, 100, 1000, 10_000, 100_000, 500_000, 499_999, 999_999, 999_995]),
        6 => r.range(0, 86399) * SEC + r.range(0, 999) * 1000,
        7 => r.range(0, 86399) * SEC + r.range(0, 5) * 5 * 10i64.pow(r.below(6) as u32) % SEC,
        _ => r.range(0, DAY - 1),
    }
}

/// A supported finite timestamp.
pub fn ts(r: &mut Rng) -> i64 {
    match r.below(16) {
        0 => TMIN + r.range(0, 3),
        1 => TMAX - r.range(0, 3),
        2 => TMIN + r.range(0, 3 * DAY),
        3 => TMAX - r.range(0, 3 * DAY),
        4 => r.range(-3 * DAY, 3 * DAY),
        5 => r.range(-10, 10),
        _ => {
            let n = tsday(r);
            n * DAY + tod(r)
        }
    }
}

pub fn ts_inf(r: &mut Rng) -> i64 {
    if r.chance(1, 2) {
        TNEG
    } else {
        TPOS
    }
}

pub fn small(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.range(-1, 1),
        1 => r.range(-13, 13),
        2 => r.range(-40, 40),
        _ => r.range(-1000, 1000),
    }
}

pub fn i32_any(r: &mut Rng) -> i32 {
    match r.below(10) {
        0 => 0,
        1 | 2 | 3 => small(r) as i32,
        4 => i32::MAX.wrapping_sub(r.below(40) as i32),
        5 => i32::MIN.wrapping_add(r.below(40) as i32),
        6 => ((1i64 << r.range(0, 31)) + r.range(-2, 2)) as i32,
        7 => (-(1i64 << r.range(0, 31)) + r.range(-2, 2)) as i32,
        8 => r.range(-100_000, 100_000) as i32,
        _ => r.u64() as i32,
    }
}

pub fn i64_any(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => small(r),
        2 => i64::MAX.wrapping_sub(r.below(100) as i64),
        3 => i64::MIN.wrapping_add(r.below(100) as i64),
        4 => (1i64 << r.range(0, 62)).wrapping_add(r.range(-2, 2)),
        5 => (-(1i64 << r.range(0, 62))).wrapping_add(r.range(-2, 2)),
        6 => r.range(-50, 50) * DAY + r.range(-2, 2),
        _ => r.u64() as i64,
    }
}

/// interval time field
/// An interval that takes a timestamp to, or next to, a value with a meaning
/// of its own: the infinities, the ends of the range, zero.
pub fn landing(r: &mut Rng, from: i64) -> Iv {
    let to = *r.pick(&[i64::MAX, i64::MIN, i64::MAX, i64::MIN, TMAX, TEND, TMIN, TMIN - 1, 0]);
    let d = match r.below(4) {
        0 | 1 => 0,
        2 => small(r) as i32,
        _ => i32_any(r) % 50_000_000,
    };
    let t = to as i128 - from as i128 - d as i128 * DAY as i128;
    let t = if r.chance(1, 3) { t + r.range(-2, 2) as i128 } else { t };
    Iv::new(0, d, t.clamp(i64::MIN as i128, i64::MAX as i128) as i64)
}

pub fn iv_time(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => {
            let s = if r.chance(1, 2) { 1 } else { -1 };
            s * tod(r)
        }
        2 => r.range(-60, 60) * DAY + r.range(-2, 2),
        3 => r.range(-100, 100) * SEC,
        4 => r.range(-100, 100) * HOUR + r.range(-1, 1),
        5 => r.range(-5000, 5000) * MINUTE,
        6 => r.range(-1_000_000, 1_000_000),
        7 => i64_any(r),
        8 => {
            // near the printable limit of hours
            let h = if r.chance(1, 2) { i32::MAX as i64 } else { i32::MIN as i64 };
            h.saturating_mul(HOUR).saturating_add(r.range(-2, 2) * HOUR + r.range(-2, 2))
        }
        9 => r.range(-400, 400) * DAY + tod(r),
        _ => {
            let s = if r.chance(1, 2) { 1 } else { -1 };
            s * (r.range(0, 50) * DAY + tod(r))
        }
    }
}

pub fn iv(r: &mut Rng) -> Iv {
    let (m, d, t) = match r.below(10) {
        0 => (i32_any(r), i32_any(r), iv_time(r)),
        1 => (small(r) as i32, 0, 0),
        2 => (0, small(r) as i32, 0),
        3 => (0, 0, iv_time(r)),
        4 => (0, small(r) as i32, iv_time(r)),
        5 => (i32_any(r), 0, 0),
        6 => (0, i32_any(r), iv_time(r)),
        _ => (small(r) as i32, small(r) as i32, iv_time(r)),
    };
    Iv::new(m, d, t)
}

/// one whose text has at most i32 hours
pub fn iv_printable_gen(r: &mut Rng) -> Iv {
    loop {
        let v = iv(r);
        if iv_printable(v) {
            return v;
        }
    }
}

pub fn f64_any(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => r.range(-12, 12) as f64,
        1 => r.range(-1000, 1000) as f64,
        2 => r.range(-1000, 1000) as f64 / 2.0,
        3 => r.range(-1000, 1000) as f64 / 4.0,
        4 => r.range(-1000, 1000) as f64 / 10.0,
        5 => r.range(-100_000, 100_000) as f64 / 1000.0,
        6 => 1.0 / r.range(1, 100) as f64,
        7 => r.unit_f64() * 2.0 - 1.0,
        8 => (r.unit_f64() - 0.5) * 10f64.powi(r.range(-12, 12) as i32),
        9 => *r.pick(&[
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            0.0,
            -0.0,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::MIN,
            5e-324,
            1e308,
            -1e308,
            1e-308,
            1e18,
            9.3e18,
        ]),
        10 => f64::from_bits(r.u64()),
        11 => 2f64.powi(r.range(-40, 40) as i32) * if r.chance(1, 2) { 1.0 } else { -1.0 },
        12 => r.range(-3_000_000_000, 3_000_000_000) as f64,
        _ => *r.pick(&[0.1, 0.2, 0.3, 0.7, 1.1, 1.5, 2.5, 3.3, 0.333333, 12.345678, -0.1, -1.5, -2.25]),
    }
}
