//! P06, P08, P10, P13, P30, P31: dates, times and timestamps in text.

use super::*;
use crate::core::*;
use crate::gen;
use crate::spell::*;

fn digest_or(or: Or) -> u64 {
    or as u64
}

pub fn parse_d(s: &str, or: Or) -> Result<i64, DateTimeError> {
    Date::try_from_str(s, or.real()).map(dv)
}
pub fn parse_t(s: &str, typmod: i32, or: Or) -> Result<i64, DateTimeError> {
    Timestamp::try_from_str(s, typmod, or.real()).map(tv)
}
pub fn parse_tm(s: &str, typmod: i32, or: Or) -> Result<i64, DateTimeError> {
    Time::try_from_str(s, typmod, or.real()).map(tmv)
}

// ---- P06 -------------------------------------------------------------------

/// field orders under which the layout of a style reads back
fn matching(st: St, or: Or) -> &'static [Or] {
    match (st, or) {
        (St::Iso, _) | (St::Xsd, _) => &ORDERS,
        (St::Ger, _) => &[Or::Dmy],
        (_, Or::Dmy) => &[Or::Dmy],
        (_, _) => &[Or::Mdy],
    }
}

pub fn p06(run: &mut Run) {
    run.rule = "supported dates, times, timestamps and infinities printed in every style and field order and read back under every matching order; distinct by (value, style, print order, read order)".into();
    let n = run.n(60_000, 3_000_000);
    run.shards(60, n, |sh, r, _| {
        let n = if r.chance(1, 40) { *r.pick(&[DNEG as i64, DPOS as i64]) } else { gen::day(r) };
        let v = if r.chance(1, 40) { gen::ts_inf(r) } else { gen::ts(r) };
        let t = if r.chance(1, 40) { DAY } else { gen::tod(r) };
        let bc = n != DNEG as i64 && civil(n.clamp(DMIN, DMAX)).0 <= 0;
        for st in STYLES {
            for or in ORDERS {
                for back in matching(st, or) {
                    let class = match (st, bc) {
                        (St::Iso, false) => "date ISO",
                        (St::Xsd, false) => "date XSD",
                        (St::Sql, false) => "date SQL",
                        (St::Ger, false) => "date German",
                        (St::Pg, false) => "date Postgres",
                        (_, true) => "date BC",
                    };
                    sh.check(class, hash64(&[1, n as u64, st as u64, or as u64, *back as u64]), || format!("{} via {:?} {:?} read {:?}", show_d(n), st, or, back), || {
                        let s = ok(d(n).format(st.real(), or.real()))?;
                        eq(parse_d(&s, *back).map_err(|e| format!("{:?} rejected: {}", s, e))?, n)
                    });
                }
                // the Postgres timestamp layout names its month
                let backs: &[Or] = if st == St::Pg { &ORDERS } else { matching(st, or) };
                for back in backs {
                    let class = match st {
                        St::Iso => "timestamp ISO",
                        St::Xsd => "timestamp XSD",
                        St::Sql => "timestamp SQL",
                        St::Ger => "timestamp German",
                        St::Pg => "timestamp Postgres",
                    };
                    sh.check(class, hash64(&[2, v as u64, st as u64, or as u64, *back as u64]), || format!("{} via {:?} {:?} read {:?}", show_t(v), st, or, back), || {
                        let s = ok(ts(v).format(st.real(), or.real()))?;
                        eq(parse_t(&s, -1, *back).map_err(|e| format!("{:?} rejected: {}", s, e))?, v)?;
                        eq(parse_t(&s, 6, *back).map_err(|e| format!("{:?} rejected: {}", s, e))?, v)
                    });
                }
            }
            for back in ORDERS {
                sh.check("time", hash64(&[3, t as u64, st as u64, back as u64]), || format!("time {} via {:?} read {:?}", clock(t), st, back), || {
                    let s = ok(tm(t).format(st.real()))?;
                    eq(parse_tm(&s, -1, back).map_err(|e| format!("{:?} rejected: {}", s, e))?, t)?;
                    eq(parse_tm(&s, 6, back).map_err(|e| format!("{:?} rejected: {}", s, e))?, t)
                });
            }
        }
    });
    for c in ["date ISO", "date XSD", "date SQL", "date German", "date Postgres", "date BC", "timestamp ISO", "timestamp XSD", "timestamp SQL", "timestamp German", "timestamp Postgres", "time"] {
        run.require(c, 1000);
    }
}

// ---- P08 -------------------------------------------------------------------

/// a year from the interesting parts of the range, astronomical
fn year(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => civil(gen::day(r)).0,
        1 => r.range(-4713, 0),
        2 => r.range(1, 1000),
        3 | 4 => r.range(1970, 2069),
        5 => r.range(1000, 9999),
        6 => r.range(10_000, 300_000),
        _ => r.range(1900, 2100),
    }
}

fn ymd(r: &mut Rng) -> (i64, i64, i64) {
    if r.chance(1, 3) {
        let (y, m, d) = civil(gen::day(r));
        return (y, m, d);
    }
    let y = year(r);
    let m = r.range(1, 12);
    let d = match r.below(4) {
        0 => mdays(y, m),
        1 => r.range(1, 12).min(mdays(y, m)),
        _ => r.range(1, mdays(y, m)),
    };
    (y, m, d)
}

/// expected timestamp of a spelled clock on a day
fn at(day: i64, c: Clock) -> i128 {
    day as i128 * DAY as i128 + c.us() as i128
}

fn meets_ts(got: Result<i64, DateTimeError>, day: i64, c: Clock) -> Result<(), String> {
    let w = at(day, c);
    if c.tie() {
        // half a microsecond: either neighbour
        if let Ok(g) = got {
            if g as i128 == w - 1 {
                return Ok(());
            }
        }
    }
    let midnight_ok = t_ok(day as i128 * DAY as i128);
    let want = if t_ok(w) && midnight_ok {
        Want::Exact(w as i64)
    } else {
        Want::Error
    };
    meets(got, want)
}

pub fn p08(run: &mut Run) {
    run.rule = "calendar days and clocks spelled in every supported notation (numeric, named, compact, day-of-year, Julian, labelled; 12- and 24-hour clocks, T, fractions of 1-7 digits) with random optional parts, case and blanks, parsed under the field order that the spelling assumes; the value must be the spelled one; distinct by text and order".into();
    let n = run.n(2_000_000, 40_000_000);
    run.shards(80, n, |sh, r, i| {
        let (y, m, dd) = ymd(r);
        let or = *r.pick(&ORDERS);
        let kind = r.below(DATE_KINDS as u64) as usize;
        let day = day_of(y, m, dd);
        let wild = r.chance(1, 3);
        match i % 3 {
            0 => {
                let Some(sp) = spell(r, y, m, dd, or, kind, None) else { return };
                let text = if wild { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
                let key = hash64(&[hash_str(&text), digest_or(or)]);
                sh.check(sp.class, key, || format!("date {:?} {:?} is {}", text, or, show_d(day)), || {
                    meets(parse_d(&text, or), if d_ok(day) { Want::Exact(day) } else { Want::Error })?;
                    meets_ts(parse_t(&text, -1, or), day, Clock { h: 0, mi: 0, s: 0, fr: 0, nd: 0 })
                });
            }
            1 => {
                let mut c = clock_rand(r);
                // the last microseconds of the supported range
                let (y, m, dd, day) = if r.chance(1, 100) {
                    c = Clock { h: 23, mi: 59, s: 59, fr: 1_000_000 - r.range(1, 2), nd: 6 };
                    (294_276, 12, 31, day_of(294_276, 12, 31))
                } else {
                    (y, m, dd, day)
                };
                let tk = r.below(TIME_KINDS as u64) as usize;
                let c = fit(r, c, tk);
                let Some(sp) = spell(r, y, m, dd, or, kind, Some((c, tk))) else { return };
                let text = if wild { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
                let key = hash64(&[hash_str(&text), digest_or(or)]);
                sh.observe(sp.time_class);
                let class = if sp.self_id { "timestamp, self-identifying date" } else { "timestamp, ordered date" };
                sh.check(class, key, || format!("timestamp {:?} {:?} is {} + {}", text, or, show_d(day), c.us()), || {
                    meets_ts(parse_t(&text, -1, or), day, c)?;
                    meets_ts(parse_t(&text, 6, or), day, c)?;
                    if c.h < 24 {
                        meets(parse_d(&text, or), if d_ok(day) { Want::Exact(day) } else { Want::Error })?;
                    }
                    Ok(())
                });
                // a time of day read from the same text is the clock in it
                let low = text.to_ascii_lowercase();
                let weekday = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"].iter().any(|w| low.contains(w) && !(*w == "mon" && low.contains("month")));
                let clocked = sp.time_class.starts_with("clock") || matches!(sp.time_class, "hour and minute" | "minutes and seconds with fraction");
                let due = !weekday && match sp.class {
                    "labelled date" => true,
                    "julian day" => day + 2_451_545 >= 0,
                    // an era between date and clock hides the date
                    x => x.contains("delimited") && clocked && !low.contains("bc") && !low.contains("ad"),
                };
                let class = if due { "time in a dated text" } else { "time in a dated text, if accepted" };
                sh.check(class, key, || format!("time in {:?} {:?} ({}, {}) is {} us", text, or, sp.class, sp.time_class, c.us()), || {
                    match parse_tm(&text, -1, or) {
                        Ok(g) if g == c.us() || c.tie() && g == c.us() - 1 => Ok(()),
                        Ok(g) => Err(format!("got {} us", g)),
                        Err(e) if due => Err(format!("got error ({})", e)),
                        Err(_) => Ok(()),
                    }
                });
            }
            _ => {
                let c = clock_rand(r);
                let tk = r.below(TIME_KINDS as u64) as usize;
                let c = fit(r, c, tk);
                // a four-digit number with a fraction is not a clock spelling
                let Some(mut tf) = time_form(r, c, tk) else { return };
                if tf.needs_date && tf.class.starts_with('T') {
                    return;
                }
                if tf.labelled {
                    // without a month, m is the month label
                    tf.pieces[2].1 = "mm".into();
                }
                let mut class = tf.class;
                let mut pieces = tf.pieces;
                if r.chance(1, 6) && (class.starts_with("clock") || class == "hour and minute") && (1..=9999).contains(&y) {
                    // a full date may stand before the clock
                    pieces[0].0 = Gap::Req;
                    pieces.insert(0, p(Gap::None, print_date(day, St::Iso, Or::Ymd)));
                    class = "time after a date";
                }
                let text = if wild { fancy(r, &pieces, true, true) } else { plain(&pieces) };
                let key = hash64(&[3, hash_str(&text), digest_or(or)]);
                let want = c.us();
                sh.check(class, key, || format!("time {:?} {:?} is {}", text, or, want), || {
                    for typmod in [-1, 6] {
                        let got = parse_tm(&text, typmod, or);
                        if c.tie() && matches!(got, Ok(g) if g == want - 1) {
                            continue;
                        }
                        meets(got, Want::Exact(want))?;
                    }
                    Ok(())
                });
            }
        }
    });
    // fractional Julian days set the clock, truncated to the microsecond
    run.shards(81, run.n(30_000, 1_000_000), |sh, r, _| {
        let day = gen::tsday(r);
        let nd = r.range(1, 7) as u32;
        let fr = r.range(0, 10i64.pow(nd) - 1);
        let text = format!("{}{}.{:0w$}", r.pick(&["J", "j", "JD ", "julian "]), day + 2_451_545, fr, w = nd as usize);
        let us = (fr as i128 * DAY as i128 / 10i128.pow(nd)) as i64;
        let or = *r.pick(&ORDERS);
        sh.check("julian day with fraction", hash_str(&text), || format!("{:?} is {} + {} us", text, show_d(day), us), || {
            let w = day as i128 * DAY as i128 + us as i128;
            eq(ok(parse_d(&text, or))?, day)?;
            match parse_t(&text, -1, or) {
                Ok(g) if (g as i128 - w).abs() <= 1 => Ok(()),
                Err(_) if !t_ok(w + 1) => Ok(()),
                x => Err(format!("got {:?}, expected {}", x, w)),
            }
        });
    });
    // every month and weekday word
    run.shards(82, run.n(2_000, 20_000), |sh, r, _| {
        for m in 1..=12 {
            let y = r.range(100, 9999);
            let dd = r.range(1, mdays(y, m));
            let day = day_of(y, m, dd);
            let mw = month_word(r, m);
            let dw = weekday_word(r, day);
            let or = *r.pick(&ORDERS);
            let text = recase(r, &format!("{} {} {} {:04}", dw, mw, dd, y));
            sh.check("month and weekday words", hash_str(&text), || format!("{:?} is {}", text, show_d(day)), || {
                eq(ok(parse_d(&text, or))?, day)
            });
        }
    });
    for c in [
        "year-first delimited", "delimited in field order", "delimited with two-digit year", "separate numbers",
        "separate numbers with two-digit year", "month name, day, year", "day, month name, year", "year, month name, day",
        "delimited month name first", "delimited month name second", "delimited year, month name",
        "day, month name, two-digit year", "month name, day, two-digit year", "two-digit year, month name, day",
        "delimited month name, two-digit year", "compact eight digits", "compact six digits", "day of year",
        "two-digit year and day of year", "julian day", "labelled date", "clock", "clock with fraction", "hour and minute",
        "clock AM", "clock PM", "compact clock", "compact hour and minute", "T clock", "T compact clock", "labelled clock",
        "allballs", "minutes and seconds with fraction", "compact clock AM/PM", "time after a date", "time in a dated text",
        "timestamp, self-identifying date", "timestamp, ordered date", "julian day with fraction", "month and weekday words",
    ] {
        run.require(c, 200);
    }
}

/// makes a random clock fit the notation more often
pub fn fit(r: &mut Rng, c: Clock, kind: usize) -> Clock {
    let mut c = c;
    match kind {
        1 | 4 => {
            c.s = 0;
            c.nd = 0;
            c.fr = 0;
        }
        8 => {
            c = Clock { h: 0, mi: 0, s: 0, fr: 0, nd: 0 };
        }
        9 => {
            c.h = 0;
            if c.nd == 0 {
                c.nd = r.range(1, 7) as u32;
                c.fr = r.range(0, 10i64.pow(c.nd) - 1);
            }
        }
        0 | 11 | 5 | 6 => {
            if r.chance(1, 60) {
                c = Clock { h: 24, mi: 0, s: 0, fr: 0, nd: *r.pick(&[0, 0, 3]) };
            } else if r.chance(1, 40) {
                c.s = 60;
                c.nd = 0;
                c.fr = 0;
            }
        }
        _ => {}
    }
    c
}

// ---- P31 -------------------------------------------------------------------

pub fn p31(run: &mut Run) {
    run.rule = "self-identifying dates parsed under all three field orders must denote the spelled day; all-numeric dates with every combination of field widths must be read in the configured order or rejected; distinct by text".into();
    let n = run.n(2_000_000, 40_000_000);
    run.shards(310, n, |sh, r, i| {
        if i % 2 == 0 {
            let (mut y, m, mut dd) = ymd(r);
            if r.chance(1, 6) {
                // zero-padded years
                y = r.range(1, 999);
                dd = dd.min(mdays(y, m));
            }
            let kind = r.below(DATE_KINDS as u64) as usize;
            let Some(sp) = spell(r, y, m, dd, Or::Ymd, kind, None) else { return };
            if !sp.self_id {
                return;
            }
            let day = day_of(y, m, dd);
            let text = if r.chance(1, 3) { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
            sh.check(sp.class, hash_str(&text), || format!("{:?} is {}", text, show_d(day)), || {
                for or in ORDERS {
                    meets(parse_d(&text, or), if d_ok(day) { Want::Exact(day) } else { Want::Error }).map_err(|e| format!("{:?}: {}", or, e))?;
                    meets_ts(parse_t(&text, -1, or), day, Clock { h: 0, mi: 0, s: 0, fr: 0, nd: 0 }).map_err(|e| format!("timestamp {:?}: {}", or, e))?;
                }
                Ok(())
            });
        } else {
            // three numbers
            let f = |r: &mut Rng| match r.below(5) {
                0 => r.range(1, 12),
                1 => r.range(13, 31),
                2 => r.range(32, 99),
                3 => r.range(1, 31),
                _ => r.range(0, 99),
            };
            let (mut a, b, mut c) = (f(r), f(r), f(r));
            let mut wide = 0;
            if r.chance(1, 2) {
                c = r.range(1000, 2100);
                wide = 2;
            } else if r.chance(1, 6) {
                a = r.range(1000, 2100);
                wide = 1;
            }
            let sep = *r.pick(&["-", "/", ".", " "]);
            let text = format!("{:02}{}{:02}{}{:02}", a, sep, b, sep, c);
            let class = match wide {
                0 => "three two-digit numbers",
                1 => "long number first",
                _ => "long number last",
            };
            sh.check(class, hash64(&[7, hash_str(&text)]), || format!("{:?}", text), || {
                for or in ORDERS {
                    let (y, m, dd) = match (wide, or) {
                        (1, _) => (a, b, c),
                        (_, Or::Ymd) => (a, b, c),
                        (_, Or::Dmy) => (c, b, a),
                        (_, Or::Mdy) => (c, a, b),
                    };
                    let y2 = match wide {
                        0 if y < 70 => y + 2000,
                        0 => y + 1900,
                        _ => y,
                    };
                    let want = if (wide == 2 && or == Or::Ymd) || !valid_ymd(y2, m, dd) {
                        Want::Error
                    } else {
                        Want::Exact(day_of(y2, m, dd))
                    };
                    meets(parse_d(&text, or), want).map_err(|e| format!("{:?}: {}", or, e))?;
                    let want_t = match want {
                        Want::Exact(n) => Want::Exact(n * DAY),
                        _ => Want::Error,
                    };
                    meets(parse_t(&text, 0, or), want_t).map_err(|e| format!("timestamp {:?}: {}", or, e))?;
                }
                Ok(())
            });
        }
    });
    for c in ["year-first delimited", "month name, day, year", "day, month name, year", "year, month name, day", "delimited month name first", "delimited month name second", "delimited year, month name", "compact eight digits", "day of year", "julian day", "labelled date", "three two-digit numbers", "long number first", "long number last"] {
        run.require(c, 200);
    }
}
