//! P04 and P05: printing.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::mk;

pub fn p04(run: &mut Run) {
    run.rule = "supported dates, times and timestamps (range ends, BC, long years, every kind of fraction) formatted in every style and field order and compared byte by byte with an independent printer; distinct by (value, style, order)".into();
    let n = run.n(40_000, 1_500_000);
    run.shards(30, n, |sh, r, _| {
        let n = gen::day(r);
        let v = gen::ts(r);
        let t = if r.chance(1, 60) { DAY } else { gen::tod(r) };
        for st in STYLES {
            for or in ORDERS {
                let class = if civil(n).0 > 0 { "date AD" } else { "date BC" };
                sh.check(class, hash64(&[1, n as u64, st as u64, or as u64]), || format!("{} in {:?} {:?}", show_d(n), st, or), || {
                    eq(ok(d(n).format(st.real(), or.real()))?, print_date(n, st, or))
                });
                let class = match (civil(split(v).0).0 > 0, v.rem_euclid(SEC) != 0) {
                    (true, false) => "timestamp AD whole second",
                    (true, true) => "timestamp AD fraction",
                    (false, false) => "timestamp BC whole second",
                    (false, true) => "timestamp BC fraction",
                };
                sh.check(class, hash64(&[2, v as u64, st as u64, or as u64]), || format!("{} in {:?} {:?}", show_t(v), st, or), || {
                    eq(ok(ts(v).format(st.real(), or.real()))?, print_ts(v, st, or))
                });
            }
            sh.check("time", hash64(&[3, t as u64, st as u64]), || format!("time {} in {:?}", clock(t), st), || {
                eq(ok(tm(t).format(st.real()))?, clock(t))
            });
        }
        if r.chance(1, 100) {
            for st in STYLES {
                for or in ORDERS {
                    sh.check("infinity", hash64(&[4, st as u64, or as u64]), || format!("infinities in {:?} {:?}", st, or), || {
                        for (dvv, tvv, w) in [(DNEG, TNEG, "-infinity"), (DPOS, TPOS, "infinity")] {
                            eq(ok(Date::from(dvv).format(st.real(), or.real()))?.as_str(), w)?;
                            eq(ok(ts(tvv).format(st.real(), or.real()))?.as_str(), w)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // every weekday and month name, every day of a 400-year cycle sampled; every fraction width
    run.shards(31, run.n(4_000, 60_000), |sh, r, _| {
        let cyc = r.range(-730_000, 730_000);
        let w = r.below(7) as u32;
        let fr = r.range(0, 10i64.pow(w) - 1) * 10i64.pow(6 - w);
        let v = cyc * DAY + r.range(0, 86_399) * SEC + fr % SEC;
        for or in ORDERS {
            sh.check("weekday and fraction sweep", hash64(&[5, v as u64, or as u64]), || show_t(v), || {
                eq(ok(ts(v).format(DateStyle::Postgres, or.real()))?, print_ts(v, St::Pg, or))
            });
        }
    });
    for c in ["date AD", "date BC", "timestamp AD whole second", "timestamp AD fraction", "timestamp BC whole second", "timestamp BC fraction", "time", "infinity", "weekday and fraction sweep"] {
        run.require(c, 500);
    }
}

pub fn p05(run: &mut Run) {
    run.rule = "intervals with all sign patterns, zero patterns, unit values (singular/plural), extreme fields and times at the printable limit, formatted in all four styles and compared byte by byte with an independent printer; distinct by (interval, style)".into();
    let n = run.n(150_000, 5_000_000);
    run.shards(40, n, |sh, r, i| {
        let v = if i % 3 == 0 {
            // small values: every pattern of sign, zero and one
            let mut p = |m: i64| *r.pick(&[0, 0, 1, -1, 2, -2, m, -m]);
            let mo = p(11) + 12 * p(3);
            let dd = p(29);
            let s = *[1i64, -1].get(p(0).unsigned_abs() as usize % 2).unwrap();
            let t = s * (p(23).abs() * HOUR + p(59).abs() * MINUTE + p(59).abs() * SEC + p(500_000).abs());
            crate::iv::Iv::new(mo as i32, dd as i32, t)
        } else {
            gen::iv(r)
        };
        let pr = iv_printable(v);
        for st in ISTYLES {
            let neg = v.m < 0 || v.d < 0 || v.t < 0;
            let pos = v.m > 0 || v.d > 0 || v.t > 0;
            let class = match (st, pr, neg, pos) {
                (_, false, _, _) => "hours beyond the printable limit",
                (Is::Pg, _, true, true) => "postgres mixed",
                (Is::Pg, _, true, _) => "postgres negative",
                (Is::Pg, _, _, _) => "postgres positive",
                (Is::Verbose, _, true, true) => "verbose mixed",
                (Is::Verbose, _, true, _) => "verbose negative",
                (Is::Verbose, _, _, _) => "verbose positive",
                (Is::Sql, _, true, true) => "sql mixed",
                (Is::Sql, _, true, _) => "sql negative",
                (Is::Sql, _, _, _) => "sql positive",
                (Is::Iso, _, true, true) => "iso mixed",
                (Is::Iso, _, true, _) => "iso negative",
                (Is::Iso, _, _, _) => "iso positive",
            };
            sh.check(class, hash64(&[v.key(), st as u64]), || format!("{:?} in {:?}", v, st), || {
                let want = if pr { Want::Exact(print_iv(v, st)) } else { Want::Error };
                meets(mk(v).format(st.real()), want)
            });
        }
    });
    for c in ["hours beyond the printable limit", "postgres mixed", "postgres negative", "postgres positive", "verbose mixed", "verbose negative", "verbose positive", "sql mixed", "sql negative", "sql positive", "iso mixed", "iso negative", "iso positive"] {
        run.require(c, 500);
    }
}
