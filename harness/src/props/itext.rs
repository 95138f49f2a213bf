//! P07, P09, P14: intervals in text.

use super::order::known_findings;
use super::*;
use crate::core::*;
use crate::gen;
use crate::ispell::*;
use crate::iv::*;
use crate::spell::{fancy, plain};

pub fn parse_iv(s: &str, typmod: i32, st: Is) -> Result<Iv, DateTimeError> {
    Interval::try_from_str(s, typmod, st.real()).map(rd)
}

pub fn p07(run: &mut Run) {
    run.rule = "printable intervals printed in every style and read back under the style settings the statement names; distinct by (fields, style)".into();
    let kh = known_findings("P07").iter().any(|k| k.contains("-2147483648 hours"));
    let kd = known_findings("P07").iter().any(|k| k.contains("day field of -2147483648"));
    let n = run.n(400_000, 20_000_000);
    run.shards(70, n, |sh, r, _| {
        let v = gen::iv_printable_gen(r);
        for st in ISTYLES {
            let backs: &[Is] = if st == Is::Sql { &[Is::Sql] } else { &ISTYLES };
            let class = match st {
                Is::Pg => "postgres",
                Is::Verbose => "verbose",
                Is::Sql => "sql standard",
                Is::Iso => "iso 8601",
            };
            let mut kf = 0;
            sh.check(class, hash64(&[v.key(), st as u64]), || format!("{:?} via {:?}", v, st), || {
                let s = ok(mk(v).format(st.real()))?;
                // the listed findings: rejected, nothing else
                let hours = kh && v.t / HOUR == i32::MIN as i64 && st != Is::Iso;
                let days = kd && v.d == i32::MIN && st == Is::Verbose && s.ends_with("ago");
                for back in backs {
                    let got = parse_iv(&s, -1, *back);
                    if (hours || days) && got.is_err() {
                        kf = if hours { 1 } else { 2 };
                        continue;
                    }
                    let got = got.map_err(|e| format!("{:?} rejected under {:?}: {}", s, back, e))?;
                    if got != v {
                        return Err(format!("{:?} read under {:?} as {:?}", s, back, got));
                    }
                    let got = parse_iv(&s, typmod(&FULL, 6), *back).map_err(|e| format!("{:?} rejected under {:?} with precision 6: {}", s, back, e))?;
                    if got != v {
                        return Err(format!("{:?} read with precision 6 under {:?} as {:?}", s, back, got));
                    }
                }
                Ok(())
            });
            if kf > 0 {
                *sh.known.entry((if kf == 1 { KF_HOURS } else { KF_DAYS }).into()).or_insert(0) += 1;
            }
        }
        if v.m < 0 || v.d < 0 || v.t < 0 {
            sh.observe("a negative field");
        }
        if (v.m < 0 || v.d < 0 || v.t < 0) && (v.m > 0 || v.d > 0 || v.t > 0) {
            sh.observe("mixed signs");
        }
        if v.m == i32::MIN || v.d == i32::MIN || v.m == i32::MAX || v.d == i32::MAX {
            sh.observe("extreme field");
        }
    });
    for c in ["postgres", "verbose", "sql standard", "iso 8601", "a negative field", "mixed signs", "extreme field"] {
        run.require(c, 100);
    }
}

fn sum_meets(got: Result<Iv, DateTimeError>, sum: &Sum) -> Result<(), String> {
    match got {
        Ok(v) => {
            if sum.is(v) {
                Ok(())
            } else {
                Err(format!("got {:?}, expected {}", v, sum.show()))
            }
        }
        Err(e) => {
            if sum.fits() && sum.safe() {
                Err(format!("got error ({}), expected {}", e, sum.show()))
            } else {
                Ok(())
            }
        }
    }
}

fn mk_neg(v: Iv) -> Iv {
    Iv::new(-v.m, -v.d, -v.t)
}

const KF_HOURS: &str = "an interval of -2147483648 hours prints as text that is not read back (postgres, verbose and SQL styles)";
const KF_DAYS: &str = "an interval with -2147483648 days prints in the verbose style as \"@ 2147483648 days ago\", which is not read back";
pub const KF_COMPACT: &str = "a fraction in the compact ISO 8601 date form (PYYYYMMDD.f) is off by less than a millisecond";
const KF_SQLMINUS: &str = "under the SQL-standard style a leading minus is not applied to a later quantity that lands in the same field (\"-1 week 3 days\" gives -4 days)";

pub fn p09(run: &mut Run) {
    run.rule = "random sums of quantities spelled with unit words, clocks, year-month literals, plain numbers, signs, fractions and ago, and ISO 8601 in three forms; the parsed fields must equal the exact integer sum (each carried fraction may be rounded once to the microsecond); distinct by text and style".into();
    let known = known_findings("P09");
    let n = run.n(1_500_000, 40_000_000);
    run.shards(90, n, |sh, r, i| {
        let st = *r.pick(&ISTYLES);
        let big = r.chance(1, 5);
        let tmod = if r.chance(1, 2) { -1 } else { typmod(&FULL, 0xFFFF) };
        if i % 3 == 2 {
            let (text, sum, class, dfrac) = iso(r, big);
            let mut kf = 0;
            sh.check(class, hash64(&[hash_str(&text), st as u64]), || format!("{:?} under {:?}", text, st), || {
                let got = parse_iv(&text, tmod, st);
                if dfrac {
                    if let Ok(v) = &got {
                        if !sum.is(*v) && v.m as i128 == sum.m && v.d as i128 == sum.d && (v.t as i128 * U - sum.t).abs() < 1000 * U && known.iter().any(|k| k.contains("PYYYYMMDD.f")) {
                            kf += 1;
                            return Ok(());
                        }
                    }
                }
                sum_meets(got, &sum)
            });
            if kf > 0 {
                *sh.known.entry(KF_COMPACT.into()).or_insert(0) += 1;
            }
            return;
        }
        let sp = traditional(r, &FULL, big);
        let text = if r.chance(1, 3) { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
        let sql_neg = st == Is::Sql && sp.lead_minus && !sp.more_signs;
        if sql_neg && sp.shared {
            return; // see the workload below
        }
        let mut sum = if sql_neg { sp.abs_sum } else { sp.sum };
        if sql_neg {
            sum.neg();
        }
        if sp.ago {
            sum.neg();
        }
        let class = if sql_neg { "sql leading minus" } else { sp.class };
        sh.check(class, hash64(&[hash_str(&text), st as u64]), || format!("{:?} under {:?}", text, st), || {
            sum_meets(parse_iv(&text, tmod, st), &sum)
        });
        if !sum.fits() {
            sh.observe("sum does not fit");
        }
    });
    // any text, against the reference reader
    run.shards(93, run.n(800_000, 40_000_000), |sh, r, _| crate::iref::agrees(sh, r, &known, true));
    // whole-number quantities that share a field, behind a leading minus
    run.shards(91, run.n(50_000, 1_000_000), |sh, r, _| {
        let fams: [&[(Unit, i64)]; 2] = [&[(Unit::W, 7), (Unit::D, 1)], &[(Unit::Y, 1), (Unit::Dec, 10), (Unit::Cent, 100), (Unit::Mil, 1000)]];
        let fam = *r.pick(&fams);
        let mut us: Vec<(Unit, i64)> = fam.to_vec();
        let k = r.below(us.len() as u64) as usize;
        us.rotate_left(k);
        us.truncate(2);
        let (a, b) = (r.range(0, 60), r.range(0, 60));
        let text = format!("-{} {} {} {}", a, r.pick(us[0].0.words()), b, r.pick(us[1].0.words()));
        let total = -(a * us[0].1 + b * us[1].1);
        let signed = -a * us[0].1 + b * us[1].1;
        let pinned = if signed > 0 { -signed } else { signed };
        let mk_iv = |x: i64| if us[0].0.group() == 8 { Iv::new(0, x as i32, 0) } else { Iv::new(12 * x as i32, 0, 0) };
        let mut kf = 0;
        sh.check("leading minus, shared field", hash_str(&text), || format!("{:?}", text), || {
            for st in [Is::Pg, Is::Verbose, Is::Iso] {
                eq(ok(parse_iv(&text, -1, st))?, mk_iv(signed)).map_err(|e| format!("{:?}: {}", st, e))?;
            }
            let got = ok(parse_iv(&text, -1, Is::Sql))?;
            if got != mk_iv(total) && got == mk_iv(pinned) && known.iter().any(|k| k.contains("leading minus sign")) {
                kf += 1;
                return Ok(());
            }
            eq(got, mk_iv(total))
        });
        if kf > 0 {
            *sh.known.entry(KF_SQLMINUS.into()).or_insert(0) += 1;
        }
    });
    // months or days that land on or beside the end of their range
    run.shards(94, run.n(40_000, 2_000_000), |sh, r, _| {
        let end = if r.chance(1, 2) { i32::MAX as i64 } else { i32::MIN as i64 };
        let t = end + r.range(-2, 2);
        let fits = i32::try_from(t).is_ok();
        let neg = t < 0;
        let a = t.abs();
        let st = *r.pick(&ISTYLES);
        // one quantity at the end of 32 bits, of any unit that adds up without a fraction
        if r.chance(1, 4) {
            let (u, m, d, us) = *r.pick(&[(Unit::Mon, 1, 0, 0), (Unit::D, 0, 1, 0), (Unit::H, 0, 0, HOUR), (Unit::Min, 0, 0, MINUTE), (Unit::S, 0, 0, SEC), (Unit::Ms, 0, 0, 1000), (Unit::Us, 0, 0, 1)]);
            if !fits && us != 0 {
                return;
            }
            // -2147483648:mm:ss is the finding listed under P07
            let clock = u == Unit::H && t != i32::MIN as i64 && r.chance(1, 2);
            let (text, extra) = if clock {
                let us = 59 * MINUTE + 59 * SEC + 999_999;
                (format!("{}:59:59.999999", t), if neg { -us } else { us })
            } else {
                (format!("{} {}", t, r.pick(u.words())), 0)
            };
            let want = Iv::new((m * t) as i32, (d * t) as i32, us * t + extra);
            sh.check(if fits { "at the end of a field's range" } else { "beyond the end of a field's range" }, hash64(&[hash_str(&text), st as u64]), || format!("{:?} under {:?}", text, st), || {
                meets(parse_iv(&text, -1, st), if fits { Want::Exact(want) } else { Want::Error })
            });
            return;
        }
        let q = |r: &mut Rng, n: i64, u: Unit| format!("{}{} {}", if neg { "-" } else { "+" }, n, r.pick(u.words()));
        let (want, text, ago) = if r.chance(1, 2) {
            let want = Iv::new(t as i32, 0, 0);
            let y = match r.below(4) {
                0 => r.range(0, a / 12),
                1 => a / 12 - r.range(0, 9).min(a / 12),
                _ => a / 12,
            };
            let m = a - 12 * y;
            match r.below(4) {
                0 => (want, format!("P{}{}Y{}{}M", if neg { "-" } else { "" }, y, if neg { "-" } else { "" }, m), false),
                1 if m < 12 => (want, format!("{}{}-{}", if neg { "-" } else { "" }, y, m), false),
                _ => {
                    let mut parts = vec![(m, Unit::Mon)];
                    let mut y = y;
                    for (u, k) in [(Unit::Mil, 1000), (Unit::Cent, 100), (Unit::Dec, 10)] {
                        if r.chance(1, 2) {
                            let n = r.range(0, y / k);
                            let n = if r.chance(1, 2) { n } else { y / k };
                            parts.push((n, u));
                            y -= n * k;
                        }
                    }
                    parts.push((y, Unit::Y));
                    if parts.iter().any(|p| p.0 > i32::MAX as i64) {
                        return;
                    }
                    let k = r.below(parts.len() as u64) as usize;
                    parts.rotate_left(k);
                    let ago = r.chance(1, 4);
                    (want, parts.iter().map(|p| q(r, p.0, p.1)).collect::<Vec<_>>().join(" "), ago)
                }
            }
        } else {
            let want = Iv::new(0, t as i32, 0);
            let w = if r.chance(1, 2) { a / 7 } else { r.range(0, a / 7) };
            let d = a - 7 * w;
            match r.below(3) {
                0 => (want, format!("P{}{}W{}{}D", if neg { "-" } else { "" }, w, if neg { "-" } else { "" }, d), false),
                _ => {
                    let (x, y) = if r.chance(1, 2) { (q(r, w, Unit::W), q(r, d, Unit::D)) } else { (q(r, d, Unit::D), q(r, w, Unit::W)) };
                    (want, format!("{} {}", x, y), r.chance(1, 4))
                }
            }
        };
        // 2147483648 of a unit has no place in the field before "ago" turns its sign
        let (text, want, fits) = if ago {
            if !fits || t == i32::MIN as i64 {
                return;
            }
            (format!("{} ago", text), mk_neg(want), fits)
        } else {
            (text, want, fits)
        };
        sh.check(if fits { "at the end of a field's range" } else { "beyond the end of a field's range" }, hash64(&[hash_str(&text), st as u64]), || format!("{:?} under {:?}", text, st), || {
            meets(parse_iv(&text, -1, st), if fits { Want::Exact(want) } else { Want::Error })
        });
    });
    for c in ["at the end of a field's range", "beyond the end of a field's range"] {
        run.require(c, 1000);
    }
    // every unit word, with every sign and with one and several
    run.shards(92, run.n(500, 5_000), |sh, r, _| {
        for u in ALL_UNITS {
            for w in u.words() {
                let n = num(r, false);
                let neg = r.chance(1, 2);
                let text = crate::spell::recase(r, &format!("{}{} {}", if neg { "-" } else { "" }, n.text(), w));
                let mut sum = Sum::default();
                sum.add(neg, &n, u);
                let st = *r.pick(&ISTYLES);
                sh.check("each unit word", hash_str(&text), || format!("{:?} under {:?}", text, st), || sum_meets(parse_iv(&text, -1, st), &sum));
            }
        }
    });
    run.require("an interval, by the reference reader", 10_000);
    for c in ["unit words", "unit words with fractions", "clock and units", "year-month literal", "number without unit", "ago", "designators", "designators with fractions", "alternative form", "compact alternative form", "sql leading minus", "leading minus, shared field", "each unit word", "sum does not fit"] {
        run.require(c, 200);
    }
}

pub fn p14(run: &mut Run) {
    run.rule = "interval text parsed with each of the thirteen field ranges and each precision; the value must be the full value cut below the last declared field and rounded to the precision; every other range or precision must be rejected; distinct by (text, range, precision)".into();
    let n = run.n(1_000_000, 30_000_000);
    run.shards(140, n, |sh, r, i| {
        let range = if r.chance(1, 14) { FULL } else { *r.pick(&RANGES) };
        let prec = if r.chance(1, 3) { None } else { Some(r.range(0, 6) as u32) };
        let tmod = typmod(&range, prec.map_or(0xFFFF, |p| p as i32));
        let st = *r.pick(&ISTYLES);
        if i % 2 == 0 {
            // text of a known value
            let v = gen::iv_printable_gen(r);
            if v.t / HOUR == i32::MIN as i64 || v.d == i32::MIN {
                return; // not always read back: findings of P07
            }
            let pst = *r.pick(&ISTYLES);
            let st = if pst == Is::Sql { Is::Sql } else { st };
            let text = print_iv(v, pst);
            let want = restrict(v, &range, prec);
            let class = if range.bits == FULL.bits { "full range" } else { range.name };
            sh.check(class, hash64(&[v.key(), pst as u64, range.bits as u64, prec.map_or(9, |p| p as u64)]), || format!("{:?} range {} precision {:?} under {:?}", text, range.name, prec, st), || {
                meets(parse_iv(&text, tmod, st), Want::Exact(want))
            });
        } else {
            let sp = traditional(r, &range, false);
            let sql_neg = st == Is::Sql && sp.lead_minus && !sp.more_signs;
            if sql_neg && sp.shared {
                return;
            }
            let mut sum = if sql_neg { sp.abs_sum } else { sp.sum };
            if sql_neg {
                sum.neg();
            }
            if sp.ago {
                sum.neg();
            }
            if !sum.fits() {
                return;
            }
            let text = plain(&sp.pieces);
            let class = if sp.unitless {
                match range.unit {
                    Unit::Y => "unit-less number as years",
                    Unit::Mon => "unit-less number as months",
                    Unit::D => "unit-less number as days",
                    Unit::H => "unit-less number as hours",
                    Unit::Min => "unit-less number as minutes",
                    _ => "unit-less number as seconds",
                }
            } else if range.ms && sp.class == "clock and units" {
                "clock under minute to second"
            } else {
                "spelled sum"
            };
            // the exact sum, and the neighbours that rounding of carried fractions allows
            let slack = ((sum.rounded * (U / 2 + U / 1000)) / U + 1) as i64;
            let exact = Iv::new(sum.m as i32, sum.d as i32, (sum.t.div_euclid(U)) as i64);
            sh.check(class, hash64(&[hash_str(&text), range.bits as u64, prec.map_or(9, |p| p as u64)]), || format!("{:?} range {} precision {:?} under {:?}", text, range.name, prec, st), || {
                let got = ok(parse_iv(&text, tmod, st))?;
                let lo = -(if sum.rounded > 0 { slack } else { 0 });
                let hi = if sum.rounded > 0 { slack } else { 0 };
                for k in lo..=hi {
                    let full = Iv::new(exact.m, exact.d, exact.t + k);
                    if got == restrict(full, &range, prec) {
                        return Ok(());
                    }
                }
                Err(format!("got {:?}, expected {:?} of {}", got, restrict(exact, &range, prec), sum.show()))
            });
        }
    });
    // a range or precision that does not exist
    run.shards(141, run.n(200_000, 4_000_000), |sh, r, _| {
        let v = gen::iv_printable_gen(r);
        let pst = *r.pick(&[Is::Pg, Is::Verbose, Is::Iso]);
        let st = *r.pick(&ISTYLES);
        let text = print_iv(v, pst);
        if r.chance(1, 6) {
            let neg = match r.below(4) {
                0 => i32::MIN,
                1 => -(r.range(1, 20) as i32),
                2 => typmod(r.pick(&RANGES), r.range(0, 6) as i32) | i32::MIN,
                _ => -(r.range(1, i32::MAX as i64) as i32),
            };
            if v.t / HOUR == i32::MIN as i64 || v.d == i32::MIN {
                return; // not always read back: findings of P07
            }
            sh.check("negative argument", hash64(&[v.key(), neg as u64]), || format!("{:?} argument {}", text, neg), || {
                meets(parse_iv(&text, neg, st), Want::Exact(v))?;
                // a number without unit is seconds
                let n = v.d as i64 % 1000;
                meets(parse_iv(&n.to_string(), neg, st), Want::Exact(Iv::new(0, 0, n * 1_000_000)))
            });
        } else if r.chance(1, 2) {
            let bits = match r.below(3) {
                0 => r.range(0, 0x7FFF) as i32,
                1 => 1 << r.range(0, 14),
                _ => RANGES[r.below(13) as usize].bits ^ (1 << r.range(0, 14)),
            };
            if RANGES.iter().any(|x| x.bits == bits) || bits == FULL.bits {
                return;
            }
            let tmod = (bits << 16) | if r.chance(1, 2) { 0xFFFF } else { r.range(0, 6) as i32 };
            sh.check("impossible range", hash64(&[v.key(), tmod as u64]), || format!("{:?} range {:#x}", text, bits), || {
                meets(parse_iv(&text, tmod, st), Want::Error)
            });
        } else {
            let prec = match r.below(3) {
                0 => r.range(7, 20),
                1 => 0xFFFE - r.range(0, 3),
                _ => r.range(7, 0xFFFE),
            } as i32;
            let range = if r.chance(1, 3) { FULL } else { *r.pick(&RANGES) };
            let tmod = typmod(&range, prec);
            sh.check("impossible precision", hash64(&[v.key(), tmod as u64]), || format!("{:?} range {} precision {}", text, range.name, prec), || {
                meets(parse_iv(&text, tmod, st), Want::Error)
            });
        }
    });
    for x in RANGES {
        run.require(x.name, 1000);
    }
    for c in ["full range", "impossible range", "impossible precision", "negative argument", "spelled sum", "clock under minute to second", "unit-less number as years", "unit-less number as months", "unit-less number as days", "unit-less number as hours", "unit-less number as minutes", "unit-less number as seconds"] {
        run.require(c, 200);
    }
}
