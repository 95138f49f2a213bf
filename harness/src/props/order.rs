//! P22 ordering, P23 infinities.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// Ord, PartialOrd, comparison operators, Eq and Hash against a reference order.
fn coherent<T: Ord + Copy + Hash>(a: T, b: T, want: Ordering) -> Result<(), String> {
    eq(a.cmp(&b), want).map_err(|e| format!("cmp: {}", e))?;
    eq(b.cmp(&a), want.reverse()).map_err(|e| format!("cmp reversed: {}", e))?;
    eq(a.partial_cmp(&b), Some(want)).map_err(|e| format!("partial_cmp: {}", e))?;
    eq((a < b, a <= b, a > b, a >= b), (want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less)).map_err(|e| format!("operators: {}", e))?;
    eq(a == b, want == Ordering::Equal).map_err(|e| format!("==: {}", e))?;
    eq(a != b, want != Ordering::Equal).map_err(|e| format!("!=: {}", e))?;
    if a == b {
        eq(h(&a), h(&b)).map_err(|e| format!("hash of equal values: {}", e))?;
    }
    let (mx, mn) = (std::cmp::max(a, b), std::cmp::min(a, b));
    if mx < mn {
        return Err("max is less than min".into());
    }
    Ok(())
}

pub const KNOWN_P22: &str = "intervals of equal total length and different fields (e.g. 1 month and 30 days) are cmp()-Equal but not ==";

pub fn p22(run: &mut Run) {
    run.rule = "pairs and triples of dates, times, timestamps (with infinities) and intervals (with equal, adjacent and far totals built from different fields); cmp, operators, ==, hash, subtraction and sorting observed against the reference position; distinct by pair".into();
    let known = !known_findings("P22").is_empty();
    let n = run.n(200_000, 8_000_000);
    run.shards(120, n, |sh, r, _| {
        let dd = |r: &mut Rng| match r.below(12) {
            0 => DNEG as i64,
            1 => DPOS as i64,
            _ => gen::day(r),
        };
        let a = dd(r);
        let b = match r.below(4) {
            0 => a,
            1 if d_ok(a) => (a + r.range(-2, 2)).clamp(DMIN, DMAX),
            _ => dd(r),
        };
        sh.check("dates", hash64(&[1, a as u64, b as u64]), || format!("{} and {}", show_d(a), show_d(b)), || {
            coherent(d(a), d(b), a.cmp(&b))?;
            if d_ok(a) && d_ok(b) {
                if let Ok(x) = d(a).sub_date(d(b)) {
                    eq(x.cmp(&0), a.cmp(&b)).map_err(|e| format!("sign of the difference: {}", e))?;
                }
            }
            Ok(())
        });
        let tt = |r: &mut Rng| if r.chance(1, 10) { gen::ts_inf(r) } else { gen::ts(r) };
        let a = tt(r);
        let b = match r.below(4) {
            0 => a,
            1 if t_ok(a as i128) => (a as i128 + r.range(-2, 2) as i128).clamp(TMIN as i128, TMAX as i128) as i64,
            _ => tt(r),
        };
        sh.check("timestamps", hash64(&[2, a as u64, b as u64]), || format!("{} and {}", show_t(a), show_t(b)), || {
            coherent(ts(a), ts(b), a.cmp(&b))?;
            if let Ok(x) = ts(a).sub_timestamp(ts(b)) {
                eq(x.cmp(&Interval::new()), a.cmp(&b)).map_err(|e| format!("sign of the difference: {}", e))?;
            }
            Ok(())
        });
        let (a, b) = (gen::tod(r), gen::tod(r));
        let b = if r.chance(1, 5) { a } else if r.chance(1, 10) { DAY } else { b };
        sh.check("times", hash64(&[3, a as u64, b as u64]), || format!("{} and {}", clock(a), clock(b)), || {
            coherent(tm(a), tm(b), a.cmp(&b))?;
            eq(tm(a).sub_time(tm(b)).cmp(&Interval::new()), a.cmp(&b))
        });
        // intervals
        let a = gen::iv(r);
        let b = match r.below(8) {
            0 => a,
            1 => near_total(a, r.range(-2, 2) as i128, r),
            2 => near_total(a, r.range(-1, 1) as i128 * DAY as i128, r),
            3 => near_total(a, 0, r),
            4 => Iv::new(a.m.wrapping_add(r.range(-1, 1) as i32), a.d, a.t),
            _ => gen::iv(r),
        };
        let want = a.total().cmp(&b.total());
        let class = match (want, a == b) {
            (Ordering::Equal, true) => "identical intervals",
            (Ordering::Equal, false) => "intervals of equal length, different fields",
            _ => "intervals of different length",
        };
        let mut hit = false;
        sh.check(class, hash64(&[4, a.key(), b.key()]), || format!("{:?} and {:?}", a, b), || {
            let (x, y) = (mk(a), mk(b));
            if want == Ordering::Equal && a != b && x != y && known {
                // the listed finding; the order itself must still be right
                hit = true;
                eq(x.cmp(&y), want)?;
                eq(y.cmp(&x), want)?;
                eq(x.partial_cmp(&y), Some(want))?;
                return eq((x < y, x <= y, x > y, x >= y), (false, true, false, true));
            }
            coherent(x, y, want)?;
            if let Ok(df) = x.sub_interval(y) {
                eq(df.cmp(&Interval::new()), want).map_err(|e| format!("sign of the difference: {}", e))?;
            }
            Ok(())
        });
        if hit {
            *sh.known.entry(KNOWN_P22.to_string()).or_insert(0) += 1;
        }
        // sorting a small mixed batch
        if r.chance(1, 20) {
            let vs: Vec<Iv> = (0..9).map(|k| if k % 3 == 2 { near_total(a, r.range(-1, 1) as i128, r) } else { gen::iv(r) }).collect();
            sh.check("sorted batch", hash64(&[5, vs[0].key(), vs[1].key()]), || format!("{:?}", vs), || {
                let mut xs: Vec<Interval> = vs.iter().map(|v| mk(*v)).collect();
                xs.sort();
                for w in xs.windows(2) {
                    if rd(w[0]).total() > rd(w[1]).total() {
                        return Err(format!("sorted {:?} before {:?}", rd(w[0]), rd(w[1])));
                    }
                }
                Ok(())
            });
        }
    });
    for c in ["dates", "timestamps", "times", "identical intervals", "intervals of equal length, different fields", "intervals of different length", "sorted batch"] {
        run.require(c, 500);
    }
}

/// another interval whose total is that of `a` plus `delta`, spread over different fields
fn near_total(a: Iv, delta: i128, r: &mut Rng) -> Iv {
    let tot = a.total() + delta;
    let m = match r.below(3) {
        0 => a.m as i128,
        1 => a.m as i128 + r.range(-3, 3) as i128,
        _ => tot / (30 * DAY as i128),
    };
    let rest = tot - m * 30 * DAY as i128;
    let dd = match r.below(3) {
        0 => rest / DAY as i128 + r.range(-3, 3) as i128,
        1 => a.d as i128,
        _ => rest / DAY as i128,
    };
    let t = rest - dd * DAY as i128;
    if m == m as i32 as i128 && dd == dd as i32 as i128 && t == t as i64 as i128 {
        Iv::new(m as i32, dd as i32, t as i64)
    } else {
        a
    }
}

/// the findings listed for a property; "fixed:" lines suppress nothing
pub fn known_findings(id: &str) -> Vec<String> {
    let head = format!("finding: property={} ", id);
    let p = std::env::var("VMON_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    std::fs::read_to_string(p)
        .map(|s| s.lines().filter(|l| l.starts_with(&head)).map(|l| l.to_string()).collect())
        .unwrap_or_default()
}

fn cyclic(u: DateUnit) -> bool {
    use DateUnit::*;
    matches!(u, MicroSec | MilliSec | Second | Minute | Hour | Day | Month | Quarter | Week | Dow | IsoDow | Doy)
}
fn yearlike(u: DateUnit) -> bool {
    use DateUnit::*;
    matches!(u, Year | Decade | Century | Millennium | JULIAN | IsoYear | Epoch)
}

pub fn p23(run: &mut Run) {
    run.rule = "both infinities of dates and timestamps against arbitrary days, times, intervals, finite and infinite partners, styles, orders, units; and finite values (range ends included) asked whether they are finite; distinct by operands".into();
    let n = run.n(150_000, 5_000_000);
    run.shards(130, n, |sh, r, _| {
        let neg = r.chance(1, 2);
        let (dvv, tvv) = if neg { (DNEG, TNEG) } else { (DPOS, TPOS) };
        let name = if neg { "-infinity" } else { "infinity" };
        let id = Date::from(dvv);
        let it = ts(tvv);
        let k = gen::i32_any(r);
        let t = if r.chance(1, 20) { DAY } else { gen::tod(r) };
        let iv = if r.chance(1, 3) { Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r)) } else { gen::iv(r) };
        sh.check("infinity absorbs", hash64(&[1, neg as u64, k as u64, t as u64, iv.key()]), || format!("{} with {} days, {}, {:?}", name, k, clock(t), iv), || {
            eq(i32::from(ok(id.add_days(k))?), dvv).map_err(|e| format!("date + days: {}", e))?;
            eq(i32::from(ok(id.sub_days(k))?), dvv).map_err(|e| format!("date - days: {}", e))?;
            eq(tv(ok(id.add_time(tm(t)))?), tvv).map_err(|e| format!("date + time: {}", e))?;
            eq(tv(ok(id.add_interval(mk(iv)))?), tvv).map_err(|e| format!("date + interval: {}", e))?;
            eq(tv(ok(it.add_interval(mk(iv)))?), tvv).map_err(|e| format!("ts + interval: {}", e))?;
            eq(tv(ok(it.add_time(tm(t)))?), tvv).map_err(|e| format!("ts + time: {}", e))?;
            eq(tv(ok(it.sub_time(tm(t)))?), tvv).map_err(|e| format!("ts - time: {}", e))?;
            eq(tv(ok(id.sub_interval(mk(iv)))?), tvv).map_err(|e| format!("date - interval: {}", e))?;
            eq(tv(ok(it.sub_interval(mk(iv)))?), tvv).map_err(|e| format!("ts - interval: {}", e))?;
            Ok(())
        });
        let u = *r.pick(&UNITS);
        sh.check("infinite truncation and fields", hash64(&[2, neg as u64, u as u64]), || format!("{} {:?}", name, u), || {
            let sign = if neg { -1.0 } else { 1.0 };
            if trunc_ts(0, u).is_some() {
                eq(tv(ok(it.truncate(FieldType::Unit, u))?), tvv).map_err(|e| format!("truncate ts: {}", e))?;
                eq(i32::from(ok(id.truncate(FieldType::Unit, u))?), dvv).map_err(|e| format!("truncate date: {}", e))?;
            }
            for (g, what) in [(it.date_part(FieldType::Unit, u), "ts"), (id.date_part(FieldType::Unit, u), "date")] {
                if cyclic(u) {
                    eq(ok(g)?, 0.0).map_err(|e| format!("{}: {}", what, e))?;
                } else if yearlike(u) && u != DateUnit::Epoch {
                    eq(ok(g)?, sign * f64::INFINITY).map_err(|e| format!("{}: {}", what, e))?;
                } else if u == DateUnit::Delta {
                    meets(g, Want::Error)?;
                }
            }
            for (g, what) in [(it.date_part(FieldType::Epoch, DateUnit::Epoch), "ts"), (id.date_part(FieldType::Epoch, DateUnit::Epoch), "date")] {
                if let Ok(x) = g {
                    eq(x, sign * f64::INFINITY).map_err(|e| format!("epoch of {}: {}", what, e))?;
                }
            }
            Ok(())
        });
        let f = gen::ts(r);
        let fd = gen::day(r);
        let other = if r.chance(1, 3) { gen::ts_inf(r) } else { f };
        let od = if other == TNEG { DNEG as i64 } else if other == TPOS { DPOS as i64 } else { fd };
        sh.check("infinite difference and age", hash64(&[3, neg as u64, other as u64, od as u64]), || format!("{} with {} / {}", name, show_t(other), show_d(od)), || {
            meets(it.sub_timestamp(ts(other)).map(rd), Want::Error)?;
            meets(ts(other).sub_timestamp(it).map(rd), Want::Error)?;
            meets(it.age(ts(other)).map(rd), Want::Error).map_err(|e| format!("age: {}", e))?;
            meets(ts(other).age(it).map(rd), Want::Error).map_err(|e| format!("age: {}", e))?;
            meets(id.sub_date(d(od)), Want::Error)?;
            meets(d(od).sub_date(id), Want::Error)?;
            meets(it.sub_date(d(od)).map(rd), Want::Error)?;
            meets(ts(other).sub_date(id).map(rd), Want::Error)
        });
        sh.check("finite values", hash64(&[4, f as u64, fd as u64]), || format!("{}, {}", show_t(f), show_d(fd)), || {
            eq((ts(f).is_finite(), ts(f).is_infinite()), (true, false))?;
            eq((d(fd).is_finite(), d(fd).is_infinite()), (true, false))?;
            eq((tm(t).is_finite(), mk(iv).is_finite()), (true, true))?;
            eq((tm(t).is_infinite(), mk(iv).is_infinite()), (false, false))?;
            // arithmetic on finite values never yields an infinity
            if let Ok(x) = ts(f).add_interval(mk(iv)) {
                eq(x.is_finite(), true)?;
            }
            if let Ok(x) = d(fd).add_days(k) {
                eq(x.is_finite(), true)?;
            }
            if let Ok(x) = d(fd).sub_days(k) {
                eq(x.is_finite(), true)?;
            }
            if let Ok(x) = Timestamp::try_from(d(fd)) {
                eq(x.is_finite(), true)?;
            }
            Ok(())
        });
        if r.chance(1, 8) {
            let st = *r.pick(&STYLES);
            let or = *r.pick(&ORDERS);
            let c = r.below(4);
            let text: String = match c {
                0 => name.to_string(),
                1 => name.to_uppercase(),
                2 => format!(" {} ", name),
                _ => {
                    let mut s = name.to_string();
                    let i = s.find('i').unwrap();
                    s.replace_range(i..i + 1, "I");
                    s
                }
            };
            let p = r.range(-1, 6) as i32;
            sh.check("infinity text and conversions", hash64(&[5, neg as u64, st as u64, or as u64, c, p as u64]), || format!("{:?} {:?} {:?}", text, st, or), || {
                eq(i32::from(ok(Date::try_from_str(&text, or.real()))?), dvv)?;
                eq(tv(ok(Timestamp::try_from_str(&text, p, or.real()))?), tvv)?;
                eq(ok(id.format(st.real(), or.real()))?.as_str(), name)?;
                eq(ok(it.format(st.real(), or.real()))?.as_str(), name)?;
                eq((id.is_infinite(), id.is_finite(), it.is_infinite(), it.is_finite()), (true, false, true, false))?;
                eq(i32::from(ok(Date::try_from(it))?), dvv)?;
                eq(tv(ok(Timestamp::try_from(id))?), tvv)?;
                eq(ok(<Option<Time>>::try_from(it))?.map(tmv), None)?;
                if Time::try_from_str(&text, -1, or.real()).is_ok() {
                    return Err("a time of day was read from it".into());
                }
                Ok(())
            });
        }
    });
    for c in ["infinity absorbs", "infinite truncation and fields", "infinite difference and age", "finite values", "infinity text and conversions"] {
        run.require(c, 500);
    }
}
