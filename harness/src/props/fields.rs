//! P25 truncation, P26 field extraction.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};

fn trunc_iv(v: Iv, u: DateUnit) -> Option<Iv> {
    let m = |k: i32| Iv::new(v.m - v.m % k, 0, 0);
    let t = |k: i64| Iv::new(v.m, v.d, v.t - v.t % k);
    Some(match u {
        DateUnit::MicroSec => v,
        DateUnit::MilliSec => t(1000),
        DateUnit::Second => t(SEC),
        DateUnit::Minute => t(MINUTE),
        DateUnit::Hour => t(HOUR),
        DateUnit::Day => Iv::new(v.m, v.d, 0),
        DateUnit::Month => m(1),
        DateUnit::Quarter => m(3),
        DateUnit::Year => m(12),
        DateUnit::Decade => m(120),
        DateUnit::Century => m(1200),
        DateUnit::Millennium => m(12000),
        _ => return None,
    })
}

pub fn p25(run: &mut Run) {
    run.rule = "timestamps, dates, times and intervals near the starts of every unit (weeks around new year, BC centuries, range ends) truncated to all 23 units; expected starts from an independent calendar; idempotence and monotonicity observed on neighbours; distinct by (value, unit)".into();
    let n = run.n(20_000, 800_000);
    run.shards(140, n, |sh, r, _| {
        let v = gen::ts(r);
        let n = gen::day(r);
        let t = if r.chance(1, 20) { DAY } else { gen::tod(r) };
        let iv = gen::iv(r);
        let v2 = (v as i128 + r.range(0, 400) as i128 * *r.pick(&[1i64, SEC, HOUR, DAY, 40 * DAY]) as i128).min(TMAX as i128) as i64;
        for u in UNITS {
            let w = trunc_ts(v, u);
            let class = match (w, civil(split(v).0).0 > 0) {
                (None, _) => "unit does not apply",
                (Some(x), _) if !t_ok(x) => "start out of range",
                (_, true) => "timestamp AD",
                _ => "timestamp BC",
            };
            sh.check(class, hash64(&[1, v as u64, u as u64]), || format!("truncate {} to {:?}", show_t(v), u), || {
                let got = ts(v).truncate(FieldType::Unit, u).map(tv);
                match w {
                    Some(x) if t_ok(x) => {
                        meets(got, Want::Exact(x as i64))?;
                        meets(ts(x as i64).truncate(FieldType::Unit, u).map(tv), Want::Exact(x as i64)).map_err(|e| format!("again: {}", e))?;
                        if let Ok(y) = ts(v2).truncate(FieldType::Unit, u) {
                            if tv(y) < x as i64 {
                                return Err(format!("not monotone: {} truncates to {}", show_t(v2), show_t(tv(y))));
                            }
                        }
                        Ok(())
                    }
                    _ => meets(got, Want::Error),
                }
            });
            let has_ts = n as i128 * (DAY as i128) < TEND as i128;
            if has_ts {
                let w = trunc_ts(n * DAY, u);
                sh.check("date", hash64(&[2, n as u64, u as u64]), || format!("truncate {} to {:?}", show_d(n), u), || {
                    let got = d(n).truncate(FieldType::Unit, u).map(dv);
                    match w {
                        Some(x) if t_ok(x) => meets(got, Want::Exact((x / DAY as i128) as i64)),
                        _ => meets(got, Want::Error),
                    }
                });
            } else {
                // no timestamp to go through: the exact start or an error
                sh.check("date beyond timestamps", hash64(&[2, n as u64, u as u64]), || format!("truncate {} to {:?}", show_d(n), u), || {
                    match (d(n).truncate(FieldType::Unit, u), trunc_day(n, u)) {
                        (Err(_), _) => Ok(()),
                        (Ok(g), Some(w)) => eq(dv(g), w),
                        (Ok(g), None) => Err(format!("got {:?}, expected an error", g)),
                    }
                });
            }
            let w = trunc_iv(Iv::new(0, 0, t), u);
            sh.check("time", hash64(&[3, t as u64, u as u64]), || format!("truncate time {} to {:?}", clock(t), u), || {
                let got = tm(t).truncate(FieldType::Unit, u).map(tmv);
                match w {
                    Some(x) => meets(got, Want::Exact(x.t)),
                    None => meets(got, Want::Error),
                }
            });
            let class = if !iv_printable(iv) { "interval beyond the hour limit" } else if iv.m < 0 || iv.t < 0 { "negative interval" } else { "interval" };
            sh.check(class, hash64(&[4, iv.key(), u as u64]), || format!("truncate {:?} to {:?}", iv, u), || {
                let got = mk(iv).truncate(FieldType::Unit, u).map(rd);
                match trunc_iv(iv, u) {
                    Some(x) if iv_printable(iv) => {
                        meets(got, Want::Exact(x))?;
                        meets(mk(x).truncate(FieldType::Unit, u).map(rd), Want::Exact(x))
                    }
                    Some(x) => meets(got, Want::Either(x)),
                    None => meets(got, Want::Error),
                }
            });
            sh.check("epoch type does not truncate", hash64(&[5, u as u64]), || format!("{:?}", u), || {
                meets(ts(v).truncate(FieldType::Epoch, u).map(tv), Want::Error)?;
                meets(tm(t).truncate(FieldType::Epoch, u).map(tmv), Want::Error)?;
                meets(mk(iv).truncate(FieldType::Epoch, u).map(rd), Want::Error)
            });
        }
    });
    // weeks, exhaustively around new years
    run.shards(141, run.n(200, 3000), |sh, r, _| {
        let y = r.range(-4711, 6000);
        for n in (day_of(y, 1, 1) - 7)..(day_of(y, 1, 1) + 7) {
            sh.check("weeks around new year", hash64(&[6, n as u64]), || show_d(n), || {
                let w = n - (isodow(n) - 1);
                meets(d(n).truncate(FieldType::Unit, DateUnit::Week).map(dv), Want::Exact(w))
            });
        }
    });
    for c in ["unit does not apply", "start out of range", "timestamp AD", "timestamp BC", "date", "date beyond timestamps", "time", "interval beyond the hour limit", "negative interval", "interval", "weeks around new year"] {
        run.require(c, 300);
    }
}

fn trunc_day(n: i64, u: DateUnit) -> Option<i64> {
    let (y, m, _) = civil(n);
    Some(match u {
        DateUnit::Week => n - (isodow(n) - 1),
        DateUnit::Month => day_of(y, m, 1),
        DateUnit::Quarter => day_of(y, (m - 1) / 3 * 3 + 1, 1),
        DateUnit::Year => day_of(y, 1, 1),
        DateUnit::Decade => day_of(y.div_euclid(10) * 10, 1, 1),
        DateUnit::Century => day_of((y - 1).div_euclid(100) * 100 + 1, 1, 1),
        DateUnit::Millennium => day_of((y - 1).div_euclid(1000) * 1000 + 1, 1, 1),
        DateUnit::Day | DateUnit::Hour | DateUnit::Minute | DateUnit::Second | DateUnit::MilliSec | DateUnit::MicroSec => n,
        _ => return None,
    })
}

fn near(got: f64, num: i128, den: i64) -> Result<(), String> {
    if den == 1 {
        return eq(got, num as f64);
    }
    let w = num as f64 / den as f64;
    if (got - w).abs() <= 4.0 * f64::EPSILON * w.abs().max(1.0) {
        Ok(())
    } else {
        Err(format!("got {:?}, expected {:?}", got, w))
    }
}

fn part_time(t: i64, u: DateUnit) -> Option<(i128, i64)> {
    match u {
        DateUnit::MicroSec => Some(((t % MINUTE) as i128, 1)),
        DateUnit::MilliSec => Some(((t % MINUTE) as i128, 1000)),
        DateUnit::Second => Some(((t % MINUTE) as i128, SEC)),
        DateUnit::Minute => Some(((t / MINUTE % 60) as i128, 1)),
        DateUnit::Hour => Some(((t / HOUR) as i128, 1)),
        _ => None,
    }
}

fn part_iv(v: Iv, u: DateUnit) -> Option<(i128, i64)> {
    let (y, mo) = ((v.m / 12) as i128, (v.m % 12) as i128);
    match u {
        DateUnit::Day => Some((v.d as i128, 1)),
        DateUnit::Month => Some((mo, 1)),
        DateUnit::Quarter => Some((mo / 3 + 1, 1)),
        DateUnit::Year => Some((y, 1)),
        DateUnit::Decade => Some((y / 10, 1)),
        DateUnit::Century => Some((y / 100, 1)),
        DateUnit::Millennium => Some((y / 1000, 1)),
        _ => part_time(v.t, u),
    }
}

pub fn p26(run: &mut Run) {
    run.rule = "timestamps, dates, times and intervals over their ranges, all 23 units and both field types, compared with an independent calendar; distinct by (value, unit)".into();
    let n = run.n(20_000, 800_000);
    run.shards(150, n, |sh, r, _| {
        let v = gen::ts(r);
        let n = gen::tsday(r);
        let t = if r.chance(1, 20) { DAY } else { gen::tod(r) };
        let iv = gen::iv(r);
        for u in UNITS {
            let w = part_ts(v, u);
            let class = match (w, civil(split(v).0).0 > 0) {
                (None, _) => "unit does not apply",
                (_, true) => "timestamp AD",
                _ => "timestamp BC",
            };
            if !matches!(u, DateUnit::Tz | DateUnit::TzHour | DateUnit::TzMinute | DateUnit::Epoch) || w.is_some() {
                sh.check(class, hash64(&[1, v as u64, u as u64]), || format!("{:?} of {}", u, show_t(v)), || match w {
                    Some((a, b)) => near(ok(ts(v).date_part(FieldType::Unit, u))?, a, b),
                    None => meets(ts(v).date_part(FieldType::Unit, u), Want::Error),
                });
                let w = part_ts(n * DAY, u);
                sh.check("date", hash64(&[2, n as u64, u as u64]), || format!("{:?} of {}", u, show_d(n)), || match w {
                    Some((a, b)) => near(ok(d(n).date_part(FieldType::Unit, u))?, a, b),
                    None => meets(d(n).date_part(FieldType::Unit, u), Want::Error),
                });
            }
            sh.check("time", hash64(&[3, t as u64, u as u64]), || format!("{:?} of time {}", u, clock(t)), || match part_time(t, u) {
                Some((a, b)) => near(ok(tm(t).date_part(FieldType::Unit, u))?, a, b),
                None => meets(tm(t).date_part(FieldType::Unit, u), Want::Error),
            });
            let class = if !iv_printable(iv) { "interval beyond the hour limit" } else if iv.m < 0 || iv.d < 0 || iv.t < 0 { "negative interval" } else { "interval" };
            sh.check(class, hash64(&[4, iv.key(), u as u64]), || format!("{:?} of {:?}", u, iv), || {
                match (mk(iv).date_part(FieldType::Unit, u), part_iv(iv, u)) {
                    (Ok(g), Some((a, b))) => near(g, a, b),
                    (Err(_), Some(_)) if !iv_printable(iv) => Ok(()),
                    (Err(e), Some((a, b))) => Err(format!("got error ({}), expected {}/{}", e, a, b)),
                    (Ok(g), None) => Err(format!("got {:?}, expected an error", g)),
                    (Err(_), None) => Ok(()),
                }
            });
            if u != DateUnit::Epoch {
                sh.check("epoch type with another unit", hash64(&[6, u as u64]), || format!("{:?}", u), || {
                    meets(tm(t).date_part(FieldType::Epoch, u), Want::Error)?;
                    meets(mk(iv).date_part(FieldType::Epoch, u), Want::Error)
                });
            }
        }
        sh.check("epoch length", hash64(&[5, t as u64, iv.key()]), || format!("epoch of {} and {:?}", clock(t), iv), || {
            near(ok(tm(t).date_part(FieldType::Epoch, DateUnit::Epoch))?, t as i128, SEC)?;
            let g = ok(mk(iv).date_part(FieldType::Epoch, DateUnit::Epoch))?;
            // 365.25 days a year, 30 days a month, exact in quarter days
            let q = (iv.m / 12) as i128 * 1461 + (iv.m % 12) as i128 * 120 + iv.d as i128 * 4;
            let us = q * (DAY as i128 / 4) + iv.t as i128;
            let w = us as f64 / 1e6;
            let scale = ((iv.m as f64).abs() * 3e6 + (iv.d as f64).abs() * 86400.0 + (iv.t as f64).abs() / 1e6).max(1.0);
            if (g - w).abs() <= 8.0 * f64::EPSILON * scale {
                Ok(())
            } else {
                Err(format!("interval epoch: got {:?}, expected {:?}", g, w))
            }
        });
    });
    // ISO weeks and years, day by day around new years
    run.shards(151, run.n(200, 3000), |sh, r, _| {
        let y = r.range(-4711, 6000);
        for n in (day_of(y, 1, 1) - 7)..(day_of(y, 1, 1) + 7) {
            sh.check("ISO week around new year", hash64(&[6, n as u64]), || show_d(n), || {
                let (iy, w) = iso_week(n);
                eq(ok(d(n).date_part(FieldType::Unit, DateUnit::Week))?, w as f64)?;
                eq(ok(d(n).date_part(FieldType::Unit, DateUnit::IsoYear))?, no_zero_year(iy) as f64)?;
                eq(ok(d(n).date_part(FieldType::Unit, DateUnit::Doy))?, doy(n) as f64)?;
                eq(ok(d(n).date_part(FieldType::Unit, DateUnit::IsoDow))?, isodow(n) as f64)
            });
        }
    });
    for c in ["unit does not apply", "timestamp AD", "timestamp BC", "date", "time", "interval beyond the hour limit", "negative interval", "interval", "epoch length", "ISO week around new year"] {
        run.require(c, 300);
    }
}
