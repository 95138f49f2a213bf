//! P15 exact arithmetic, P16 calendar addition, P17 age, P18 time of day.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};

fn wr(x: i128) -> Want<i64> {
    if t_ok(x) {
        Want::Exact(x as i64)
    } else {
        Want::Error
    }
}

/// like wr, but an intermediate value may leave the range
fn wr_via(mid: i128, x: i128) -> Want<i64> {
    match (t_ok(mid), wr(x)) {
        (_, Want::Error) => Want::Error,
        (true, w) => w,
        (false, Want::Exact(v)) => Want::Either(v),
        (_, w) => w,
    }
}

pub fn p15(run: &mut Run) {
    run.rule = "dates, timestamps, times of day and day-and-time intervals over the whole ranges, with operands chosen so that results fall on both sides of each end of the range; expected results in 128-bit integers; distinct by operands".into();
    let n = run.n(150_000, 6_000_000);
    run.shards(50, n, |sh, r, _| {
        let n = gen::day(r);
        let k = match r.below(5) {
            0 => gen::i32_any(r) as i64,
            1 => (DMAX - n + r.range(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64),
            2 => (DMIN - n + r.range(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64),
            3 => (i32::MIN as i64 - n + r.range(-3, 3)).clamp(i32::MIN as i64, i32::MAX as i64),
            _ => gen::small(r),
        };
        let want = |x: i64| if d_ok(x) { Want::Exact(x) } else { Want::Error };
        let class = if d_ok(n + k) { "date plus days in range" } else { "date plus days out of range" };
        sh.check(class, hash64(&[1, n as u64, k as u64]), || format!("{} + {} days", show_d(n), k), || meets(d(n).add_days(k as i32).map(dv), want(n + k)));
        let class = if d_ok(n - k) { "date minus days in range" } else { "date minus days out of range" };
        sh.check(class, hash64(&[2, n as u64, k as u64]), || format!("{} - {} days", show_d(n), k), || meets(d(n).sub_days(k as i32).map(dv), want(n - k)));
        let m = gen::day(r);
        sh.check("date minus date", hash64(&[3, n as u64, m as u64]), || format!("{} - {}", show_d(n), show_d(m)), || {
            let df = n - m;
            if df >= i32::MIN as i64 && df <= i32::MAX as i64 {
                eq(ok(d(n).sub_date(d(m)))? as i64, df)?;
                eq(dv(ok(d(m).add_days(df as i32))?), n)
            } else {
                meets(d(n).sub_date(d(m)), Want::Error)
            }
        });
        let t = if r.chance(1, 40) { DAY } else { gen::tod(r) };
        let w = if n as i128 * (DAY as i128) < TEND as i128 {
            wr(n as i128 * DAY as i128 + t as i128)
        } else {
            Want::Error
        };
        sh.check("date plus time of day", hash64(&[4, n as u64, t as u64]), || format!("{} + {}", show_d(n), clock(t)), || meets(d(n).add_time(tm(t)).map(tv), w));

        let v = gen::ts(r);
        let iv = match r.below(8) {
            6 => gen::landing(r, v),
            7 => {
                let x = gen::landing(r, v);
                Iv::new(0, x.d.wrapping_neg(), x.t.wrapping_neg())
            }
            0 => Iv::new(0, 0, TMAX.wrapping_sub(v).wrapping_add(r.range(-2, 2))),
            1 => Iv::new(0, 0, TMIN.wrapping_sub(v).wrapping_add(r.range(-2, 2))),
            2 => Iv::new(0, (((TMAX - v.max(0)) / DAY) + r.range(-2, 2)) as i32, gen::iv_time(r)),
            3 => Iv::new(0, gen::i32_any(r), gen::iv_time(r)),
            4 => Iv::new(0, gen::i32_any(r), gen::i64_any(r)),
            _ => Iv::new(0, gen::small(r) as i32, gen::iv_time(r)),
        };
        let mid = v as i128 + iv.d as i128 * DAY as i128;
        let w = wr_via(mid, mid + iv.t as i128);
        let class = if w == Want::Error { "timestamp plus interval out of range" } else { "timestamp plus interval in range" };
        sh.check(class, hash64(&[5, v as u64, iv.key()]), || format!("{} + {:?}", show_t(v), iv), || meets(ts(v).add_interval(mk(iv)).map(tv), w));
        let mid = v as i128 - iv.d as i128 * DAY as i128;
        let w = if iv.d == i32::MIN || iv.t == i64::MIN {
            match wr(mid - iv.t as i128) {
                Want::Exact(x) => Want::Either(x),
                w => w,
            }
        } else {
            wr_via(mid, mid - iv.t as i128)
        };
        let class = if w == Want::Error { "timestamp minus interval out of range" } else { "timestamp minus interval in range" };
        sh.check(class, hash64(&[6, v as u64, iv.key()]), || format!("{} - {:?}", show_t(v), iv), || meets(ts(v).sub_interval(mk(iv)).map(tv), w));
        if (n as i128) * (DAY as i128) < TEND as i128 {
            let v = n * DAY;
            let mid = v as i128 + iv.d as i128 * DAY as i128;
            let w = wr_via(mid, mid + iv.t as i128);
            sh.check("date plus interval", hash64(&[7, n as u64, iv.key()]), || format!("{} + {:?}", show_d(n), iv), || meets(d(n).add_interval(mk(iv)).map(tv), w));
            if iv.d != i32::MIN && iv.t != i64::MIN {
                let mid = v as i128 - iv.d as i128 * DAY as i128;
                let w = wr_via(mid, mid - iv.t as i128);
                sh.check("date minus interval", hash64(&[8, n as u64, iv.key()]), || format!("{} - {:?}", show_d(n), iv), || meets(d(n).sub_interval(mk(iv)).map(tv), w));
            }
        } else {
            sh.check("date without timestamp plus interval", hash64(&[9, n as u64, iv.key()]), || format!("{} + {:?}", show_d(n), iv), || {
                meets(d(n).add_interval(mk(iv)).map(tv), Want::Error)?;
                meets(d(n).sub_interval(mk(iv)).map(tv), Want::Error)
            });
        }
        sh.check("timestamp plus and minus time", hash64(&[10, v as u64, t as u64]), || format!("{} +- {}", show_t(v), clock(t)), || {
            meets(ts(v).add_time(tm(t)).map(tv), wr(v as i128 + t as i128))?;
            meets(ts(v).sub_time(tm(t)).map(tv), wr(v as i128 - t as i128))
        });
        let u = if r.chance(1, 3) { (v as i128 + gen::iv_time(r) as i128).clamp(TMIN as i128, TMAX as i128) as i64 } else { gen::ts(r) };
        let diff = v as i128 - u as i128;
        let class = if diff < 0 { "negative difference" } else { "positive difference" };
        sh.check(class, hash64(&[11, v as u64, u as u64]), || format!("{} - {}", show_t(v), show_t(u)), || {
            let want = Iv::new(0, (diff / DAY as i128) as i32, (diff % DAY as i128) as i64);
            if diff > i64::MAX as i128 || diff < i64::MIN as i128 {
                // no interval time field holds it while it is being formed
                return meets(ts(v).sub_timestamp(ts(u)).map(rd), Want::Either(want));
            }
            let got = ok(ts(v).sub_timestamp(ts(u)))?;
            eq(rd(got), want)?;
            meets(ts(u).add_interval(got).map(tv), Want::Exact(v)).map_err(|e| format!("adding it back: {}", e))
        });
        let nd = gen::tsday(r);
        let diff = v as i128 - nd as i128 * DAY as i128;
        sh.check("timestamp minus date", hash64(&[12, v as u64, nd as u64]), || format!("{} - {}", show_t(v), show_d(nd)), || {
            let want = Iv::new(0, (diff / DAY as i128) as i32, (diff % DAY as i128) as i64);
            if diff > i64::MAX as i128 || diff < i64::MIN as i128 {
                return meets(ts(v).sub_date(d(nd)).map(rd), Want::Either(want));
            }
            meets(ts(v).sub_date(d(nd)).map(rd), Want::Exact(want))
        });
    });
    for c in ["date plus days in range", "date plus days out of range", "date minus days in range", "date minus days out of range", "date minus date", "date plus time of day", "timestamp plus interval out of range", "timestamp plus interval in range", "timestamp minus interval out of range", "timestamp minus interval in range", "date plus interval", "date minus interval", "date without timestamp plus interval", "timestamp plus and minus time", "negative difference", "positive difference", "timestamp minus date"] {
        run.require(c, 500);
    }
}

fn months(r: &mut Rng, n: i64) -> i32 {
    let (y, m, _) = civil(n);
    match r.below(8) {
        0 => r.range(-14, 14) as i32,
        1 => (r.range(-500, 500) * 12) as i32,
        2 => ((294_276 - y) * 12 + 12 - m + r.range(-14, 14)) as i32,
        3 => (-(y + 4713) * 12 + 11 - m + r.range(-14, 14)) as i32,
        4 => gen::i32_any(r),
        5 => *r.pick(&[1, -1, 11, 12, 13, -11, -12, -13, 24, -24]),
        _ => r.range(-5000, 5000) as i32,
    }
}

pub fn p16(run: &mut Run) {
    run.rule = "timestamps and dates (month ends, leap days, BC, range ends) plus and minus intervals with months, days and time in every combination, compared with independent calendar addition; distinct by operands".into();
    let n = run.n(250_000, 10_000_000);
    run.shards(60, n, |sh, r, _| {
        let v = if r.chance(1, 3) {
            // month ends
            let (y, m) = (*r.pick(&[-4712i64, -401, -4, -1, 0, 1, 4, 1899, 1900, 1996, 1999, 2000, 2001, 2004, 2100, 294_275]), r.range(1, 12));
            (day_of(y, m, mdays(y, m) - r.range(0, 3)) * DAY + gen::tod(r)).clamp(TMIN, TMAX)
        } else {
            gen::ts(r)
        };
        let n = split(v).0;
        let m = months(r, n);
        let iv = match r.below(8) {
            6 | 7 => match add_iv(v, Iv::new(m, 0, 0)) {
                // months first, then on to a value with a meaning of its own
                Want::Exact(x) => Iv { m, ..gen::landing(r, x) },
                _ => gen::landing(r, v),
            },
            0 => Iv::new(m, gen::i32_any(r), gen::iv_time(r)),
            1 | 2 => Iv::new(m, 0, 0),
            3 => Iv::new(m, gen::small(r) as i32, gen::iv_time(r)),
            4 => Iv::new(m, 0, gen::iv_time(r)),
            _ => Iv::new(m, gen::small(r) as i32, 0),
        };
        let w = add_iv(v, iv);
        let (_, _, dd) = civil(n);
        let class = match w {
            Want::Error => "add out of range",
            Want::Either(_) => "add through an out-of-range intermediate",
            Want::Exact(_) if dd > 28 => "add, late day of month",
            Want::Exact(_) if civil(n).0 <= 0 => "add, BC",
            Want::Exact(_) => "add, in range",
        };
        sh.check(class, hash64(&[1, v as u64, iv.key()]), || format!("{} + {:?}", show_t(v), iv), || meets(ts(v).add_interval(mk(iv)).map(tv), w));
        // subtraction is addition of the negation
        if iv.m != i32::MIN && iv.d != i32::MIN && iv.t != i64::MIN {
            let neg = Iv::new(-iv.m, -iv.d, -iv.t);
            let w = add_iv(v, neg);
            let class = if w == Want::Error { "subtract out of range" } else { "subtract in range" };
            sh.check(class, hash64(&[2, v as u64, iv.key()]), || format!("{} - {:?}", show_t(v), iv), || meets(ts(v).sub_interval(mk(iv)).map(tv), w));
        } else {
            sh.check("subtract an interval without negation", hash64(&[3, v as u64, iv.key()]), || format!("{} - {:?}", show_t(v), iv), || {
                // the exact result, when there is one, or an error
                let _ = guarded(|| ts(v).sub_interval(mk(iv)).map(tv))?;
                Ok(())
            });
        }
        let n = gen::tsday(r);
        let w = add_iv(n * DAY, iv);
        sh.check("date add", hash64(&[4, n as u64, iv.key()]), || format!("{} + {:?}", show_d(n), iv), || meets(d(n).add_interval(mk(iv)).map(tv), w));
        if iv.m != i32::MIN && iv.d != i32::MIN && iv.t != i64::MIN {
            let w = add_iv(n * DAY, Iv::new(-iv.m, -iv.d, -iv.t));
            sh.check("date subtract", hash64(&[5, n as u64, iv.key()]), || format!("{} - {:?}", show_d(n), iv), || meets(d(n).sub_interval(mk(iv)).map(tv), w));
        }
    });
    for c in ["add out of range", "add through an out-of-range intermediate", "add, late day of month", "add, BC", "add, in range", "subtract out of range", "subtract in range", "date add", "date subtract"] {
        run.require(c, 300);
    }
}

pub fn p17(run: &mut Run) {
    run.rule = "pairs of timestamps (near each other, month ends, leap days, BC, whole range) whose age is compared with an independent calendar difference and checked for sign uniformity, field bounds, antisymmetry and zero; distinct by the pair".into();
    let n = run.n(250_000, 10_000_000);
    run.shards(70, n, |sh, r, _| {
        let a = gen::ts(r);
        let b = match r.below(6) {
            0 => a,
            1 => (a as i128 + gen::iv_time(r) as i128).clamp(TMIN as i128, TMAX as i128) as i64,
            2 => (a as i128 + r.range(-70, 70) as i128 * DAY as i128 + r.range(-1, 1) as i128).clamp(TMIN as i128, TMAX as i128) as i64,
            3 => match add_iv(a, Iv::new(r.range(-40, 40) as i32, r.range(-2, 2) as i32, r.range(-1, 1) * HOUR)) {
                Want::Exact(x) => x,
                _ => gen::ts(r),
            },
            4 => {
                // late and early days of month around short months
                let y = r.range(-50, 2100);
                let m = r.range(1, 12);
                day_of(y, m, *r.pick(&[1, 27, 28, mdays(y, m)])) * DAY + gen::tod(r)
            }
            _ => gen::ts(r),
        };
        let w = age(a, b);
        let class = match (a.cmp(&b), w.m.abs() >= 12, w.d != 0) {
            (std::cmp::Ordering::Equal, _, _) => "equal operands",
            (std::cmp::Ordering::Less, true, _) => "negative age of years",
            (std::cmp::Ordering::Less, false, _) => "negative age under a year",
            (std::cmp::Ordering::Greater, true, _) => "positive age of years",
            (std::cmp::Ordering::Greater, false, _) => "positive age under a year",
        };
        sh.check(class, hash64(&[a as u64, b as u64]), || format!("age({}, {})", show_t(a), show_t(b)), || {
            let g = rd(ok(ts(a).age(ts(b)))?);
            let h = rd(ok(ts(b).age(ts(a)))?);
            eq((h.m, h.d, h.t), (-g.m, -g.d, -g.t)).map_err(|e| format!("not antisymmetric: {}", e))?;
            let pos = g.m > 0 || g.d > 0 || g.t > 0;
            let neg = g.m < 0 || g.d < 0 || g.t < 0;
            if pos && neg {
                return Err(format!("mixed signs {:?}", g));
            }
            if (!pos && !neg) != (a == b) || (pos && a < b) || (neg && a > b) {
                return Err(format!("wrong sign or zero {:?}", g));
            }
            if g.d.abs() > 30 || g.t.abs() >= DAY {
                return Err(format!("field out of bounds {:?}", g));
            }
            eq(g, w)
        });
    });
    for c in ["equal operands", "negative age of years", "negative age under a year", "positive age of years", "positive age under a year"] {
        run.require(c, 500);
    }
}

pub fn p18(run: &mut Run) {
    run.rule = "times of day (incl. 00:00:00 and 24:00:00) plus and minus intervals of every length and sign with arbitrary months and days, and differences of times; distinct by operands".into();
    let n = run.n(300_000, 15_000_000);
    run.shards(80, n, |sh, r, _| {
        let t = if r.chance(1, 20) { DAY } else { gen::tod(r) };
        let mut iv = match r.below(5) {
            0 => Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r)),
            1 => Iv::new(0, 0, r.range(-3, 3) * DAY + *r.pick(&[0, 1, -1, -t, t, DAY - t, t - DAY])),
            _ => gen::iv(r),
        };
        if r.chance(1, 30) {
            iv.t = *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i64::MAX - DAY, i64::MIN + DAY]);
        }
        let class = match (iv.t >= 0, iv.t.unsigned_abs() >= DAY as u64) {
            (true, false) => "forward within a day",
            (true, true) => "forward over days",
            (false, false) => "backward within a day",
            (false, true) => "backward over days",
        };
        sh.check(class, hash64(&[t as u64, iv.key()]), || format!("{} +- {:?}", clock(t), iv), || {
            eq(tmv(tm(t).add_interval(mk(iv))), (t as i128 + iv.t as i128).rem_euclid(DAY as i128) as i64).map_err(|e| format!("add: {}", e))?;
            eq(tmv(tm(t).sub_interval(mk(iv))), (t as i128 - iv.t as i128).rem_euclid(DAY as i128) as i64).map_err(|e| format!("subtract: {}", e))
        });
        let u = if r.chance(1, 20) { DAY } else { gen::tod(r) };
        sh.check("difference of times", hash64(&[1, t as u64, u as u64]), || format!("{} - {}", clock(t), clock(u)), || eq(rd(tm(t).sub_time(tm(u))), Iv::new(0, 0, t - u)));
    });
    for c in ["forward within a day", "forward over days", "backward within a day", "backward over days", "difference of times"] {
        run.require(c, 500);
    }
}
