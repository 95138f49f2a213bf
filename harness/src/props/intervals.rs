//! P19 add/sub/neg, P20 justify, P21 scaling.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};

fn fit(m: i128, d: i128, t: i128) -> Want<Iv> {
    if m < i32::MIN as i128 || m > i32::MAX as i128 || d < i32::MIN as i128 || d > i32::MAX as i128 || t < i64::MIN as i128 || t > i64::MAX as i128 {
        Want::Error
    } else {
        Want::Exact(Iv::new(m as i32, d as i32, t as i64))
    }
}
fn wide(v: Iv) -> (i128, i128, i128) {
    (v.m as i128, v.d as i128, v.t as i128)
}

pub fn p19(run: &mut Run) {
    run.rule = "pairs and triples of intervals with boundary fields; sums, differences and negations compared per field in wide integers, plus the algebraic laws on the observed results; distinct by operands".into();
    let n = run.n(300_000, 12_000_000);
    run.shards(90, n, |sh, r, _| {
        let one = |r: &mut Rng| -> Iv {
            if r.chance(1, 3) {
                Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r))
            } else {
                gen::iv(r)
            }
        };
        let a = one(r);
        let mut b = one(r);
        if r.chance(1, 4) {
            // aim at the edge of one field
            match r.below(3) {
                0 => b.m = (if a.m > 0 { i32::MAX } else { i32::MIN }).wrapping_sub(a.m).wrapping_add(r.range(-1, 1) as i32),
                1 => b.d = (if a.d > 0 { i32::MAX } else { i32::MIN }).wrapping_sub(a.d).wrapping_add(r.range(-1, 1) as i32),
                _ => b.t = (if a.t > 0 { i64::MAX } else { i64::MIN }).wrapping_sub(a.t).wrapping_add(r.range(-1, 1)),
            }
        }
        let (x, y) = (wide(a), wide(b));
        let sum = fit(x.0 + y.0, x.1 + y.1, x.2 + y.2);
        let dif = fit(x.0 - y.0, x.1 - y.1, x.2 - y.2);
        let neg = fit(-x.0, -x.1, -x.2);
        let k = hash64(&[a.key(), b.key()]);
        sh.check(if sum == Want::Error { "sum overflows" } else { "sum" }, k, || format!("{:?} + {:?}", a, b), || {
            meets(mk(a).add_interval(mk(b)).map(rd), sum)?;
            meets(mk(b).add_interval(mk(a)).map(rd), sum).map_err(|e| format!("commuted: {}", e))?;
            if let Want::Exact(w) = sum {
                eq(rd(mk(a) + mk(b)), w).map_err(|e| format!("+ operator: {}", e))?;
                meets(mk(w).sub_interval(mk(b)).map(rd), Want::Exact(a)).map_err(|e| format!("undone by subtraction: {}", e))?;
            }
            Ok(())
        });
        sh.check(if dif == Want::Error { "difference overflows" } else { "difference" }, k ^ 1, || format!("{:?} - {:?}", a, b), || meets(mk(a).sub_interval(mk(b)).map(rd), dif));
        sh.check(if neg == Want::Error { "negation overflows" } else { "negation" }, hash64(&[a.key()]), || format!("-{:?}", a), || {
            meets(mk(a).negate().map(rd), neg)?;
            if let Want::Exact(w) = neg {
                meets(mk(w).negate().map(rd), Want::Exact(a))?;
            }
            Ok(())
        });
        let c = one(r);
        sh.check("associativity", hash64(&[a.key(), b.key(), c.key()]), || format!("{:?}, {:?}, {:?}", a, b, c), || {
            let l = mk(a).add_interval(mk(b)).and_then(|x| x.add_interval(mk(c))).map(rd);
            let r = mk(b).add_interval(mk(c)).and_then(|x| mk(a).add_interval(x)).map(rd);
            match (l, r) {
                (Ok(l), Ok(r)) => eq(l, r),
                _ => Ok(()),
            }
        });
        if r.chance(1, 50) {
            sh.check("identity", hash64(&[2, a.key()]), || format!("{:?} + 0", a), || {
                eq(rd(Interval::new()), Iv::new(0, 0, 0))?;
                meets(mk(a).add_interval(Interval::new()).map(rd), Want::Exact(a))?;
                meets(mk(a).sub_interval(mk(a)).map(rd), Want::Exact(Iv::new(0, 0, 0)))
            });
        }
    });
    for c in ["sum overflows", "sum", "difference overflows", "difference", "negation overflows", "negation", "associativity", "identity"] {
        run.require(c, 300);
    }
}

pub fn p20(run: &mut Run) {
    run.rule = "intervals with boundary and mixed-sign fields; the justified fields are determined by the total length, so they are compared exactly, plus idempotence; results that cannot be held by the fields are skipped; distinct by interval".into();
    let n = run.n(300_000, 12_000_000);
    run.shards(100, n, |sh, r, _| {
        let v = match r.below(5) {
            0 => Iv::new(gen::small(r) as i32, (r.range(-3, 3) * 30 + r.range(-1, 1)) as i32, r.range(-3, 3) * DAY + r.range(-1, 1)),
            1 => Iv::new(r.range(-2, 2) as i32, r.range(-61, 61) as i32, r.range(-60 * DAY, 60 * DAY)),
            2 => Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r)),
            _ => gen::iv(r),
        };
        let (m, dd, t) = wide(v);
        let day = DAY as i128;
        let s = dd * day + t;
        let hours = fit(m, s / day, s % day);
        let u = m * 30 + dd;
        let days = fit(u / 30, u % 30, t);
        let tot = v.total();
        let rest = tot % (30 * day);
        let full = fit(tot / (30 * day), rest / day, rest % day);
        let mixed = (v.m > 0 || v.d > 0 || v.t > 0) && (v.m < 0 || v.d < 0 || v.t < 0);
        // justify_hours leaves the months and justify_days the time alone
        for (k, w, which) in [(0u64, hours, "hours"), (1, days, "days"), (2, full, "full")] {
            let class = match (k, w, mixed) {
                (_, Want::Error, _) => "not representable (skipped)",
                (0, _, false) => "hours, one sign",
                (0, _, true) => "hours, mixed signs",
                (1, _, false) => "days, one sign",
                (1, _, true) => "days, mixed signs",
                (_, _, false) => "full, one sign",
                (_, _, true) => "full, mixed signs",
            };
            sh.check(class, hash64(&[k, v.key()]), || format!("justify {} {:?}", which, v), || {
                let f = |x: Iv| {
                    rd(match k {
                        0 => mk(x).justify_hours(),
                        1 => mk(x).justify_days(),
                        _ => mk(x).justify_interval(),
                    })
                };
                let g = f(v); // must not panic whatever it returns
                if let Want::Exact(w) = w {
                    eq(g, w)?;
                    eq(g.total(), tot)?;
                    eq(f(g), g).map_err(|e| format!("twice: {}", e))?;
                }
                Ok(())
            });
        }
    });
    for c in ["hours, one sign", "hours, mixed signs", "days, one sign", "days, mixed signs", "full, one sign", "full, mixed signs"] {
        run.require(c, 1000);
    }
}

/// n*f or n/f as exact integer part and remaining fraction (same sign), None when huge
fn scaled(n: i64, f: f64, div: bool) -> Option<(i128, f64)> {
    if n == 0 {
        return Some((0, 0.0));
    }
    let bits = f.abs().to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let fr = (bits & ((1 << 52) - 1)) as i128;
    let (mut mant, mut e) = if exp == 0 { (fr, -1074) } else { (fr | 1 << 52, exp - 1075) };
    while mant & 1 == 0 && mant != 0 {
        mant >>= 1;
        e += 1;
    }
    let sg = if (n < 0) != (f < 0.0) { -1i128 } else { 1 };
    let a = (n as i128).abs();
    if !div {
        let p = a * mant; // <= 2^63 * 2^53
        if e >= 0 {
            if e > 10 && p > 1i128 << 100 {
                return None;
            }
            if e > 100 {
                return None;
            }
            if (p as f64) * 2f64.powi(e as i32) > 1e25 {
                return None;
            }
            return Some((sg * (p << e), 0.0));
        }
        let k = -e;
        if k > 120 {
            return Some((0, sg as f64 * (a as f64) * f.abs()));
        }
        let q = p >> k;
        let rem = p & ((1i128 << k) - 1);
        Some((sg * q, sg as f64 * (rem as f64 / 2f64.powi(k as i32))))
    } else {
        let approx = a as f64 / f.abs();
        if approx > 1e25 || approx.is_nan() {
            return None;
        }
        if approx < 1e-12 {
            return Some((0, sg as f64 * approx));
        }
        // a / (mant * 2^e)
        let (num, den) = if e >= 0 {
            if e > 70 {
                return Some((0, sg as f64 * approx));
            }
            (Some(a), mant << e)
        } else if -e <= 126 - (128 - a.leading_zeros() as i64) {
            (Some(a << -e), mant)
        } else {
            (None, mant)
        };
        match num {
            Some(num) => {
                let (q, rem) = (num / den, num % den);
                Some((sg * q, sg as f64 * (rem as f64 / den as f64)))
            }
            None => {
                // long division by shifting
                let mut num = a;
                let mut sh = -e;
                let mut q: i128 = num / den;
                num %= den;
                while sh > 0 {
                    num <<= 1;
                    q <<= 1;
                    if num >= den {
                        num -= den;
                        q += 1;
                    }
                    if q > 1i128 << 100 {
                        return None;
                    }
                    sh -= 1;
                }
                Some((sg * q, sg as f64 * (num as f64 / den as f64)))
            }
        }
    }
}

pub fn p21(run: &mut Run) {
    run.rule = "intervals times and divided by factors (integers, simple and random fractions, tiny, huge, NaN, infinite), results compared with exact rational scaling within a bound derived from the f64 rounding of each field; integer factors and exact divisors per field exactly; distinct by (interval, factor, operation)".into();
    run.out.assumptions.push("a fraction of a month is carried to days rounded to 1e-6 day, as the code and PostgreSQL do; exact or so rounded are both accepted".into());
    let n = run.n(300_000, 12_000_000);
    run.shards(110, n, |sh, r, _| {
        let v = match r.below(4) {
            0 => Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r)),
            _ => gen::iv(r),
        };
        let f = gen::f64_any(r);
        for div in [false, true] {
            one_scale(sh, v, f, div);
        }
        // fractions of months and days that add up to about a whole day
        let w = Iv::new(r.range(-40, 40) as i32, r.range(-40, 40) as i32, if r.chance(1, 2) { 0 } else { r.range(-2 * DAY, 2 * DAY) });
        let f = match r.below(4) {
            0 => r.range(-64, 64) as f64 / (1u64 << r.below(7)) as f64,
            1 => r.range(-120, 120) as f64 / 60.0,
            2 => r.range(-300, 300) as f64 / 100.0,
            _ => r.range(-90, 90) as f64 / r.range(1, 31) as f64,
        };
        if f != 0.0 {
            one_scale(sh, w, f, false);
            one_scale(sh, w, if r.chance(1, 2) { f } else { 1.0 / f }, true);
        }
        // a field that lands on or beside the end of its range
        let t = if r.chance(1, 2) { i32::MAX as i64 } else { i32::MIN as i64 } + r.range(-3, 3);
        let k = match r.below(4) {
            0 => 1,
            1 => 1 << r.below(12),
            _ => r.range(1, 40),
        } * if r.chance(1, 2) { 1 } else { -1 };
        let t = if r.chance(2, 3) { t - t % k } else { t };
        if t % k == 0 && i32::try_from(t / k).is_ok() {
            let e = (t / k) as i32;
            let o = if r.chance(1, 2) { 0 } else { r.range(-1000, 1000) as i32 };
            let us = if r.chance(1, 2) { 0 } else { r.range(-DAY, DAY) };
            let v = match r.below(3) {
                0 => Iv::new(e, o, us),
                1 => Iv::new(o, e, us),
                _ => Iv::new(e, e, us),
            };
            sh.observe("to the end of the range");
            one_scale(sh, v, k as f64, false);
            // powers of two have an exact inverse
            if (k.unsigned_abs()).is_power_of_two() {
                one_scale(sh, v, 1.0 / k as f64, true);
            }
        }
        // exact division: k*x / k
        let k = r.range(1, 60) * if r.chance(1, 2) { 1 } else { -1 };
        let x = Iv::new(r.range(-40_000, 40_000) as i32, r.range(-40_000, 40_000) as i32, r.range(-(1 << 46), 1 << 46));
        let kx = Iv::new(x.m * k as i32, x.d * k as i32, x.t * k);
        sh.check("exact integer division", hash64(&[7, x.key(), k as u64]), || format!("{:?} / {}", kx, k), || meets(mk(kx).div_f64(k as f64).map(rd), Want::Exact(x)));
    });
    for c in ["integer factor", "fractional factor", "overflowing factor", "NaN factor", "division", "division by zero", "exact integer division", "to the end of the range"] {
        run.require(c, 500);
    }
}

fn one_scale(sh: &mut Shard, v: Iv, f: f64, div: bool) {
    let call = move || {
        if div {
            mk(v).div_f64(f).map(rd)
        } else {
            mk(v).mul_f64(f).map(rd)
        }
    };
    let desc = move || format!("{:?} {} {:?}", v, if div { "/" } else { "*" }, f);
    let key = hash64(&[v.key(), f.to_bits(), div as u64]);
    if f.is_nan() {
        sh.check("NaN factor", key, desc, || meets(call(), Want::Error));
        return;
    }
    if div && f == 0.0 {
        sh.check("division by zero", key, desc, || meets(call(), Want::Error));
        return;
    }
    if f.is_infinite() {
        sh.check("infinite factor", key, desc, || {
            if div {
                meets(call(), Want::Either(Iv::new(0, 0, 0)))
            } else {
                meets(call(), Want::Error)
            }
        });
        return;
    }
    let (sm, sd, st) = (scaled(v.m as i64, f, div), scaled(v.d as i64, f, div), scaled(v.t, f, div));
    let ((im, fm), (id, fd), (it, ft)) = match (sm, sd, st) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => {
            sh.check("overflowing factor", key, desc, || meets(call(), Want::Error));
            return;
        }
    };
    let eps = f64::EPSILON;
    let day = DAY as f64;
    // f64 rounding of each product, in its own unit
    let em = (im as f64).abs().max(fm.abs()) * 2.0 * eps;
    let ed = (id as f64).abs().max(fd.abs()) * 2.0 * eps;
    let et = (it as f64).abs().max(ft.abs()) * 2.0 * eps;
    let has_frac_m = fm != 0.0;
    let tol_us = (em * 30.0 + ed) * day
        + et
        + 0.502
        + (if has_frac_m || fd != 0.0 { 0.502 } else { 0.0 });
    // the days carried out of a month may be rounded to 1e-6 day, or not
    let q = fm * 30.0 * 1e6;
    let tie = ((q - q.floor()) - 0.5).abs() < 1e-3 + em * 60e6;
    let shift = (q.round() - q) * 1e-6 * day;
    let (down, up) = match (has_frac_m, tie) {
        (false, _) => (0.0, 0.0),
        (_, true) => (0.6e-6 * day, 0.6e-6 * day),
        _ => ((-shift).max(0.0), shift.max(0.0)),
    };
    let total = im * 30 * DAY as i128 + id * DAY as i128 + it;
    let total_f = (fm * 30.0 + fd) * day + ft;
    // bounds of the fields after cascading
    let hi32 = i32::MAX as f64;
    let lo32 = i32::MIN as f64;
    let dsum = id as f64 + fd + fm * 30.0;
    let tf = it as f64;
    let clearly_fits = im as f64 + fm < hi32 - 1.0 && im as f64 + fm > lo32 + 1.0
        && id as f64 + fd < hi32 - 1.0 && id as f64 + fd > lo32 + 1.0
        && dsum < hi32 - 32.0 && dsum > lo32 + 32.0
        && tf.abs() < 9.223_372e18 - 2e11;
    let over = |x: f64, hi: f64, lo: f64| x > hi + hi * 1e-9 || x < lo + lo * 1e-9;
    let clearly_not = over(im as f64 + fm, hi32 + 1.0, lo32 - 1.0) || over(id as f64 + fd, hi32 + 1.0, lo32 - 1.0) || tf.abs() > 9.223_373e18;
    // nothing is rounded: the ends of the range count exactly
    let exact = fm == 0.0 && fd == 0.0 && ft == 0.0 && it.abs() < 1 << 53 && v.t.unsigned_abs() < 1 << 53;
    let is32 = |x: i128| x >= i32::MIN as i128 && x <= i32::MAX as i128;
    let clearly_fits = clearly_fits || (exact && is32(im) && is32(id));
    let clearly_not = clearly_not || (exact && !(is32(im) && is32(id)));
    let int_factor = !div && f.fract() == 0.0;
    let class = if clearly_not {
        "overflowing factor"
    } else if div {
        "division"
    } else if int_factor {
        "integer factor"
    } else {
        "fractional factor"
    };
    sh.check(class, key, desc, || {
        let g = match call() {
            Err(e) if clearly_fits => return Err(format!("got error ({}), expected about {} us in total", e, total)),
            Err(_) => return Ok(()),
            Ok(g) => g,
        };
        if clearly_not {
            return Err(format!("got {:?}, expected an error", g));
        }
        let diff = (g.total() - total) as f64 - total_f;
        if diff > tol_us + up || diff < -tol_us - down {
            return Err(format!("got {:?}: total differs from the exact scaling by {} us (allowed -{} to {})", g, diff, tol_us + down, tol_us + up));
        }
        // whole months stay months
        let near_int = fm.abs() > 1.0 - em - 1e-12 || fm.abs() < em;
        let m_ok = g.m as i128 == im || (near_int && (g.m as i128 - im).abs() <= 1);
        if !m_ok {
            return Err(format!("got {:?}: months should be {}", g, im));
        }
        // days hold the whole days and the whole days cascaded from the months
        let want_d = id as f64 + fd + ((im - g.m as i128) as f64 + fm) * 30.0;
        if (g.d as f64 - want_d).abs() > 2.0 + ed + em * 30.0 {
            return Err(format!("got {:?}: days should be about {}", g, want_d));
        }
        if int_factor && f.abs() < 9e15 {
            let em = v.m as i128 * f as i128;
            let edd = v.d as i128 * f as i128;
            let ett = v.t as i128 * f as i128;
            if g.m as i128 != em || g.d as i128 != edd {
                return Err(format!("got {:?}, expected months {} days {}", g, em, edd));
            }
            if ett.abs() < 1 << 53 && (v.t as i128).abs() < 1 << 53 && g.t as i128 != ett {
                return Err(format!("got {:?}, expected time {}", g, ett));
            }
        }
        // the time is its own scaling plus less than a day carried from above
        let carried = g.t as f64 - (it as f64 + ft);
        if carried.abs() > day + et + 2.0 || (et < 0.01 && carried.abs() > day - 0.4) {
            return Err(format!("got {:?}: {} us were carried into the time", g, carried));
        }
        Ok(())
    });
}
