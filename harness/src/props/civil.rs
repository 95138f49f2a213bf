//! P01 civil dates, P02 component assembly, P03 conversions.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};
use std::convert::TryFrom;

fn odd_i32(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => gen::i32_any(r),
        1 => r.range(-100, 100) as i32,
        2 => *r.pick(&[0, 13, 32, -1, i32::MIN, i32::MAX, i32::MIN + 1, 5874897, 5874898, -4714, -4715, -4713]),
        _ => r.range(0, 62) as i32,
    }
}

/// expected day of the historical triple (negative years are BC)
fn want_ymd(y: i32, m: i32, d: i32) -> Want<i64> {
    if y == 0 || !(1..=12).contains(&m) || !(1..=31).contains(&d) {
        return Want::Error;
    }
    let a = astro(y as i64);
    if !(-5000..=6_000_000).contains(&a) || !valid_ymd(a, m as i64, d as i64) {
        return Want::Error;
    }
    let n = day_of(a, m as i64, d as i64);
    if d_ok(n) {
        Want::Exact(n)
    } else {
        Want::Error
    }
}

pub fn p01(run: &mut Run) {
    run.rule = "day numbers over the whole supported range (range ends, year/month/century/leap edges, uniform) printed in ISO and compared with an independent calendar, and (y,m,d) triples incl. impossible and extreme ones built with try_from_ymd; consecutive-day odometer walks check successor days; a case is distinct by its day number or triple".into();
    let n = run.n(120_000, 3_000_000);
    run.shards(1, n, |sh, r, _| {
        let n = gen::day(r);
        let (y, m, dd) = civil(n);
        let hy = no_zero_year(y);
        let era = if y > 0 { "AD day" } else { "BC day" };
        sh.check(era, hash64(&[1, n as u64]), || show_d(n), || {
            eq(d(n).format(DateStyle::ISO, DateOrder::YMD).map_err(|e| e.to_string()), Ok(print_date(n, St::Iso, Or::Ymd)))?;
            eq(dv(ok(Date::try_from_ymd(hy as i32, m as i32, dd as i32))?), n)
        });
        if y > 0 && n < TEND / DAY {
            sh.check("AD day by timestamp assembly", hash64(&[2, n as u64]), || show_d(n), || {
                meets(Timestamp::try_from_ymd_hms(hy as i32, m as i32, dd as i32, 0, 0, 0.0).map(tv), Want::Exact(n * DAY))
            });
        }
    });
    run.shards(2, n / 2, |sh, r, _| {
        let (y, m, dd) = match r.below(7) {
            0 => (odd_i32(r), odd_i32(r), odd_i32(r)),
            1 => (r.range(-4720, 2200) as i32, r.range(0, 13) as i32, r.range(0, 32) as i32),
            2 => (r.range(-4720, 2200) as i32, 2, r.range(27, 30) as i32),
            3 => (*r.pick(&[-4714, -4713, -4715, 5874897, 5874898, 5874896]), r.range(1, 12) as i32, r.range(0, 32) as i32),
            4 => (gen::i32_any(r), r.range(1, 12) as i32, r.range(1, 31) as i32),
            5 => (r.range(-47, 58_748) as i32 * 100, 2, *r.pick(&[28, 29, 30])),
            _ => (*r.pick(&[0, -1, 1, 4, -4, -5, 100, -101, 400, -401]), r.range(1, 12) as i32, r.range(0, 32) as i32),
        };
        let w = want_ymd(y, m, dd);
        let class = match w {
            Want::Error if valid_ymd(astro(y as i64), m as i64, dd as i64) && y != 0 => "out-of-range year rejected",
            Want::Error => "impossible triple rejected",
            _ => "valid triple accepted",
        };
        sh.check(class, hash64(&[3, y as u64, m as u64, dd as u64]), || format!("try_from_ymd({}, {}, {})", y, m, dd), || {
            meets(Date::try_from_ymd(y, m, dd).map(dv), w)
        });
    });
    // odometer: independent of any day-count formula
    let len = run.n(15_000, 400_000);
    let exhaustive = run.tier_thorough && run.scale >= 1.0;
    run.shards(3, if exhaustive { 8 } else { run.n(8, 8) }, |sh, r, i| {
        let (start, steps) = if exhaustive {
            let k = sh.id as i64 * 8 + i as i64;
            let total = DEND - DMIN;
            let per = (total + 63) / 64;
            let s = DMIN + per * k;
            (s, (DEND - s).min(per))
        } else {
            let s = match (sh.id as i64 * 8 + i as i64) % 4 {
                0 => DMIN,
                1 => DEND - len as i64,
                2 => -730_500 - r.range(0, len as i64 - 1),
                _ => gen::day(r).min(DEND - len as i64),
            };
            (s, len as i64)
        };
        let (mut y, mut m, mut dd) = civil(start);
        // one monitored evaluation per block, so the bookkeeping does not dominate
        let mut n = start;
        let end = start + steps;
        let mut buf = String::new();
        while n < end && !sh.stopped() {
            let stop = (n + 1024).min(end);
            let (n0, y0, m0, d0) = (n, y, m, dd);
            sh.check("odometer block of up to 1024 consecutive days", hash64(&[4, n as u64]), || format!("days from {}", show_d(n0)), || {
                let (mut y, mut m, mut dd) = (y0, m0, d0);
                for k in n0..stop {
                    let p = ok(d(k).format(DateStyle::ISO, DateOrder::YMD))?;
                    iso_into(&mut buf, y, m, dd);
                    if p != buf {
                        return Err(format!("day {} printed {}, the calendar walk says {}", k, p, buf));
                    }
                    let back = dv(ok(Date::try_from_ymd(no_zero_year(y) as i32, m as i32, dd as i32))?);
                    if back != k {
                        return Err(format!("{} built day {}, the calendar walk says {}", buf, back, k));
                    }
                    next(&mut y, &mut m, &mut dd);
                }
                Ok(())
            });
            sh.observe_n("consecutive days walked", (stop - n) as u64);
            while n < stop {
                next(&mut y, &mut m, &mut dd);
                n += 1;
            }
        }
    });
    if exhaustive {
        run.out.extra.insert("all_supported_days_enumerated".into(), "true".into());
    }
    for c in ["AD day", "BC day", "impossible triple rejected", "out-of-range year rejected", "valid triple accepted", "consecutive days walked"] {
        run.require(c, 1000);
    }
}

fn next(y: &mut i64, m: &mut i64, d: &mut i64) {
    *d += 1;
    if *d > 28 && *d > mdays(*y, *m) {
        *d = 1;
        *m += 1;
        if *m > 12 {
            *m = 1;
            *y += 1;
        }
    }
}

fn iso_into(s: &mut String, y: i64, m: i64, d: i64) {
    s.clear();
    let sy = shown_year(y);
    let mut digits = [0u8; 12];
    let mut k = 0;
    let mut v = sy;
    while v > 0 || k < 4 {
        digits[k] = b'0' + (v % 10) as u8;
        v /= 10;
        k += 1;
    }
    for i in (0..k).rev() {
        s.push(digits[i] as char);
    }
    for x in [m, d] {
        s.push('-');
        s.push((b'0' + (x / 10) as u8) as char);
        s.push((b'0' + (x % 10) as u8) as char);
    }
    if y <= 0 {
        s.push_str(" BC");
    }
}

/// Seconds in f64 with the exact microsecond count they stand for when it is
/// not within float noise of a tie.
fn seconds(r: &mut Rng) -> (f64, Option<i64>) {
    let us = |n: i64| (n as f64 / 1e6, Some(n));
    match r.below(12) {
        0 => (0.0, Some(0)),
        1 => (r.range(0, 60) as f64, None),
        2 => us(r.range(0, 60_000_000)),
        3 => us(r.range(59_000_000, 60_000_000)),
        4 => (
            *r.pick(&[
                f64::NAN,
                f64::INFINITY,
                f64::NEG_INFINITY,
                -1.0,
                -0.5,
                -1e-9,
                60.000_001,
                60.5,
                61.0,
                1e9,
                1e300,
                -1e300,
                f64::MAX,
                f64::MIN_POSITIVE,
                -f64::MIN_POSITIVE,
                -0.0,
                60.0,
                59.999_999,
                59.999_999_6,
                59.999_999_4,
                0.000_000_4,
                0.000_000_6,
            ]),
            None,
        ),
        5 => {
            // exact ties: k/8 microseconds are not representable ties, dyadic ones are
            let whole = r.range(0, 59);
            let k = r.range(0, 127) as f64 / 128.0; // 7812.5 us steps
            (whole as f64 + k, None)
        }
        6 => (r.unit_f64() * 60.0, None),
        7 => ((r.range(0, 59_999_999) as f64 + 0.4) / 1e6, None),
        8 => ((r.range(0, 59_999_999) as f64 + 0.6) / 1e6, None),
        9 => (r.unit_f64() * 120.0 - 30.0, None),
        10 => (f64::from_bits(r.u64()), None),
        _ => us(r.range(0, 999_999)),
    }
}

/// Rounded microseconds allowed for `s` seconds: exact arithmetic on the f64.
pub fn allowed_us(s: f64) -> Vec<i128> {
    // s = mant * 2^e exactly
    if s == 0.0 || !s.is_finite() || s.abs() < 1e-9 {
        return vec![0];
    }
    let bits = s.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = (bits & ((1 << 52) - 1)) as i128;
    let (mant, e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    let num = mant * 1_000_000;
    let (q, rem, unit) = if e >= 0 {
        if e > 50 {
            return vec![];
        }
        (num << e, 0, 1)
    } else if e < -126 {
        return vec![0];
    } else {
        let unit = 1i128 << -e;
        (num >> -e, num & (unit - 1), unit)
    };
    let sg = if s < 0.0 { -1 } else { 1 };
    // distance to the tie in units; the float product may be off by an ulp
    let twice = rem * 2 - unit;
    let slack = (q.max(1) as f64 * 4.0 * f64::EPSILON * unit as f64) as i128 + 1;
    let up = (q + 1) * sg;
    let down = q * sg;
    if rem == 0 {
        vec![down]
    } else if twice == 0 {
        vec![up]
    } else if twice.abs() <= slack {
        vec![down, up]
    } else if twice > 0 {
        vec![up]
    } else {
        vec![down]
    }
}

pub fn p02(run: &mut Run) {
    run.rule = "hour/minute/second, year..second and year..second interval components drawn from valid, edge, out-of-range, extreme, NaN and infinite values; expected result computed from the exact binary value of the seconds; distinct by component tuple".into();
    let n = run.n(150_000, 6_000_000);
    run.shards(10, n, |sh, r, _| {
        let (h, m) = match r.below(8) {
            0 => (odd_i32(r), odd_i32(r)),
            1 => (24, r.range(0, 1) as i32),
            2 => (r.range(-1, 25) as i32, r.range(-1, 60) as i32),
            3 => (23, 59),
            _ => (r.range(0, 23) as i32, r.range(0, 59) as i32),
        };
        let (s, _) = seconds(r);
        let in_range = (0..=24).contains(&h)
            && (0..60).contains(&m)
            && s >= 0.0
            && s <= 60.0
            && !(h == 24 && (m > 0 || s > 0.0));
        let base = (h as i128 * 60 + m as i128) * MINUTE as i128;
        let class = if in_range { "time accepted" } else { "time rejected" };
        sh.check(class, hash64(&[1, h as u64, m as u64, s.to_bits()]), || format!("Time::try_from_hms({}, {}, {:?})", h, m, s), || {
            match Time::try_from_hms(h, m, s) {
                Err(e) if in_range => Err(format!("got error ({})", e)),
                Err(_) => Ok(()),
                Ok(t) if !in_range => Err(format!("got {:?}, expected an error", t)),
                Ok(t) => {
                    let al = allowed_us(s);
                    if al.iter().any(|u| base + u == tmv(t) as i128) && supported_time(tmv(t)) {
                        Ok(())
                    } else {
                        Err(format!("got {} us, expected {:?}", tmv(t), al.iter().map(|u| base + u).collect::<Vec<_>>()))
                    }
                }
            }
        });
        // timestamps
        let n = gen::tsday(r);
        let (cy, cm, cd) = civil(n);
        let (y, mo, dd) = match r.below(8) {
            0 => (odd_i32(r), odd_i32(r), odd_i32(r)),
            1 => (r.range(-3, 294_280) as i32, r.range(0, 13) as i32, r.range(0, 32) as i32),
            2 => (*r.pick(&[294_276, 294_277, 0, -1, 1, 5_874_897, i32::MAX, i32::MIN]), r.range(1, 12) as i32, r.range(1, 31) as i32),
            3 => (r.range(1, 3000) as i32, 2, r.range(28, 30) as i32),
            _ => (no_zero_year(cy) as i32, cm as i32, cd as i32),
        };
        let date_ok = y > 0 && valid_ymd(y as i64, mo as i64, dd as i64);
        let day0 = if date_ok { Some(day_of(y as i64, mo as i64, dd as i64)) } else { None };
        let al = allowed_us(s);
        let cands: Vec<i128> = match day0 {
            Some(n) if in_range => al.iter().map(|u| n as i128 * DAY as i128 + base + u).collect(),
            _ => vec![],
        };
        let all_fit = cands.iter().all(|c| t_ok(*c));
        let any_fit = cands.iter().any(|c| t_ok(*c));
        let class = if cands.is_empty() {
            "timestamp components rejected"
        } else if !any_fit {
            "timestamp out of range rejected"
        } else {
            "timestamp accepted"
        };
        sh.check(class, hash64(&[2, y as u64, mo as u64, dd as u64, h as u64, m as u64, s.to_bits()]), || format!("Timestamp::try_from_ymd_hms({}, {}, {}, {}, {}, {:?})", y, mo, dd, h, m, s), || {
            match Timestamp::try_from_ymd_hms(y, mo, dd, h, m, s) {
                Err(_) if cands.is_empty() || !all_fit => Ok(()),
                Err(e) => Err(format!("got error ({}), expected {:?}", e, cands)),
                Ok(t) => {
                    let v = tv(t) as i128;
                    if cands.contains(&v) && t_ok(v) {
                        Ok(())
                    } else if cands.is_empty() {
                        Err(format!("got {}, expected an error", tv(t)))
                    } else {
                        Err(format!("got {}, expected {:?}", tv(t), cands))
                    }
                }
            }
        });
        // intervals
        let c: Vec<i32> = (0..6)
            .map(|k| match r.below(5) {
                0 => 0,
                1 => gen::small(r) as i32,
                2 => {
                    // close to what fits the field
                    let lim = [i32::MAX / 12, i32::MAX, i32::MAX / 7, i32::MAX, i32::MAX, i32::MAX][k];
                    (r.range(-1, 1) * lim as i64 + r.range(-3, 3)).clamp(i32::MIN as i64, i32::MAX as i64) as i32
                }
                3 => r.range(-100_000, 100_000) as i32,
                _ => gen::i32_any(r),
            })
            .collect();
        let s = match r.below(4) {
            0 => 0.0,
            1 => seconds(r).0,
            2 => r.range(-3_000_000_000, 3_000_000_000) as f64 / 1000.0,
            _ => (r.unit_f64() - 0.5) * 10f64.powi(r.range(0, 13) as i32),
        };
        let months = c[0] as i128 * 12 + c[1] as i128;
        let days = c[2] as i128 * 7 + c[3] as i128;
        let al = allowed_us(s);
        let hm = c[4] as i128 * HOUR as i128 + c[5] as i128 * MINUTE as i128;
        let fits = |x: i128| x >= i64::MIN as i128 && x <= i64::MAX as i128;
        let f32ok = |x: i128| x >= i32::MIN as i128 && x <= i32::MAX as i128;
        let cands: Vec<i128> = al.iter().map(|u| hm + u).collect();
        if !s.is_finite() {
            sh.check("interval with NaN or infinite seconds rejected", hash64(&[3, s.to_bits()]), || format!("{:?} seconds {:?}", c, s), || {
                meets(Interval::try_from_ymwd_hms(c[0], c[1], c[2], c[3], c[4], c[5], s).map(rd), Want::Error)
            });
        } else if f32ok(months) && f32ok(days) && s.abs() < 9e12 && cands.iter().all(|x| fits(*x + 4096) && fits(*x - 4096)) {
            sh.check("interval assembled", hash64(&[4, c[0] as u64, c[1] as u64, c[2] as u64, c[3] as u64, c[4] as u64, c[5] as u64, s.to_bits()]), || format!("Interval::try_from_ymwd_hms{:?} seconds {:?}", c, s), || {
                let v = rd(ok(Interval::try_from_ymwd_hms(c[0], c[1], c[2], c[3], c[4], c[5], s))?);
                // beyond 2^52 microseconds the seconds argument itself is coarser than that
                let big = (s * 1e6).abs() >= (1u64 << 52) as f64;
                let slack = if big { ((s * 1e6).abs() * 2.0 * f64::EPSILON) as i128 } else { 0 };
                let t_ok = cands.iter().any(|c| (c - v.t as i128).abs() <= slack);
                if v.m as i128 == months && v.d as i128 == days && t_ok {
                    Ok(())
                } else {
                    Err(format!("got {:?}, expected months {} days {} time {:?}", v, months, days, cands))
                }
            });
        } else {
            sh.observe("interval totals outside the fields (skipped)");
        }
    });
    // the last microseconds of the supported range, and totals that land on the end of a field
    run.shards(11, run.n(4_000, 100_000), |sh, r, _| {
        let us = r.range(-4, 3);
        let (y, mo, dd, h, m, s) = if us < 0 { (294_276, 12, 31, 23, 59, (60_000_000 + us) as f64 / 1e6) } else { (294_277, 1, 1, 0, 0, us as f64 / 1e6) };
        let v = TEND as i128 + us as i128;
        let class = if us < 0 { "last microseconds" } else { "beyond the last microsecond" };
        sh.check(class, hash64(&[5, us as u64]), || format!("Timestamp::try_from_ymd_hms({}, {}, {}, {}, {}, {:?})", y, mo, dd, h, m, s), || {
            let got = Timestamp::try_from_ymd_hms(y, mo, dd, h, m, s).map(tv);
            meets(got, if t_ok(v) { Want::Exact(v as i64) } else { Want::Error })
        });
        let lo = r.chance(1, 2);
        let t = if lo { i32::MIN as i64 + r.range(0, 2) } else { i32::MAX as i64 - r.range(0, 2) };
        let part = |r: &mut Rng, k: i64| {
            let a = if r.chance(1, 2) { t / k } else { r.range((t / k).min(0), (t / k).max(0)) };
            (a as i32, i32::try_from(t - a * k).ok())
        };
        let months = r.chance(1, 2);
        let (a, b) = part(r, if months { 12 } else { 7 });
        let b = match b {
            Some(b) => b,
            None => return,
        };
        let want = if months { Iv::new(t as i32, 0, 0) } else { Iv::new(0, t as i32, 0) };
        sh.check("interval total at the end of a field", hash64(&[6, a as u64, b as u64, months as u64]), || format!("{:?}: {} and {}", want, a, b), || {
            let got = if months { Interval::try_from_ymwd_hms(a, b, 0, 0, 0, 0, 0.0) } else { Interval::try_from_ymwd_hms(0, 0, a, b, 0, 0, 0.0) };
            meets(got.map(rd), Want::Exact(want))
        });
    });
    for c in ["last microseconds", "beyond the last microsecond", "interval total at the end of a field", "time accepted", "time rejected", "timestamp accepted", "timestamp components rejected", "timestamp out of range rejected", "interval assembled", "interval with NaN or infinite seconds rejected"] {
        run.require(c, 500);
    }
}

pub fn p03(run: &mut Run) {
    run.rule = "timestamps, dates, times and intervals over their whole ranges plus infinities pushed through every conversion and compared with exact integer arithmetic; distinct by value".into();
    let n = run.n(200_000, 8_000_000);
    run.shards(20, n, |sh, r, _| {
        let v = gen::ts(r);
        let (n, t) = split(v);
        let class = if v >= 0 { "timestamp after 2000" } else if civil(n).0 > 0 { "timestamp before 2000" } else { "timestamp BC" };
        sh.check(class, hash64(&[1, v as u64]), || show_t(v), || {
            eq(dv(ok(Date::try_from(ts(v)))?), n).map_err(|e| format!("date: {}", e))?;
            let time = ok(<Option<Time>>::try_from(ts(v)))?;
            eq(time.map(tmv), Some(t)).map_err(|e| format!("time of day: {}", e))?;
            eq(tv(ok(Timestamp::try_from(d(n)))?), n * DAY).map_err(|e| format!("midnight: {}", e))?;
            eq(tv(ok(d(n).add_time(tm(t)))?), v).map_err(|e| format!("date + time: {}", e))?;
            eq(i64::from(Timestamp::from(v)), v)
        });
        let n = gen::day(r);
        let w = if (n as i128) * (DAY as i128) < TEND as i128 { Want::Exact(n * DAY) } else { Want::Error };
        let class = if w == Want::Error { "date without timestamp" } else { "date to midnight" };
        sh.check(class, hash64(&[2, n as u64]), || show_d(n), || {
            meets(Timestamp::try_from(d(n)).map(tv), w)?;
            eq(i32::from(Date::from(n as i32)) as i64, n)
        });
        let t = if r.chance(1, 50) { DAY } else { gen::tod(r) };
        sh.check("time of day", hash64(&[3, t as u64]), || format!("time {}", clock(t)), || {
            eq(rd(Interval::from(tm(t))), Iv::new(0, 0, t))?;
            eq(i64::from(Time::from(t)), t)
        });
        let v = gen::iv(r);
        sh.check("interval", hash64(&[4, v.key()]), || format!("{:?}", v), || {
            eq(tmv(Time::from(mk(v))), v.t.rem_euclid(DAY)).map_err(|e| format!("time of day: {}", e))?;
            eq(i128::from(mk(v)), v.total()).map_err(|e| format!("total: {}", e))
        });
        if r.chance(1, 40) {
            let neg = r.chance(1, 2);
            let (tsv, dvv) = if neg { (TNEG, DNEG) } else { (TPOS, DPOS) };
            sh.check("infinity", hash64(&[5, neg as u64]), || show_t(tsv), || {
                eq(i32::from(ok(Date::try_from(ts(tsv)))?), dvv)?;
                eq(tv(ok(Timestamp::try_from(Date::from(dvv)))?), tsv)?;
                eq(ok(<Option<Time>>::try_from(ts(tsv)))?.map(tmv), None)
            });
        }
        if r.chance(1, 20) {
            // raw conversions are lossless for every integer
            let a = gen::i32_any(r);
            let b = gen::i64_any(r);
            sh.check("raw integer", hash64(&[6, a as u64, b as u64]), || format!("{} {}", a, b), || {
                eq(i32::from(Date::from(a)), a)?;
                eq(i64::from(Timestamp::from(b)), b)?;
                eq(i64::from(Time::from(b)), b)
            });
        }
    });
    for c in ["timestamp after 2000", "timestamp before 2000", "timestamp BC", "date without timestamp", "date to midnight", "time of day", "interval", "infinity", "raw integer"] {
        run.require(c, 500);
    }
}
