//! P10, P13, P30: rejected text, precision, case and spacing.

use super::itext::parse_iv;
use super::text::{fit, parse_d, parse_t, parse_tm};
use super::*;
use crate::core::*;
use crate::gen;
use crate::ispell;
use crate::spell::*;

/// every word that has a meaning in date, time or interval text
pub const KNOWN_WORDS: &[&str] = &[
    "acsst", "acst", "act", "ad", "adt", "aesst", "aest", "aft", "ago", "ahst", "akdt", "akst",
    "allballs", "almst", "almt", "am", "amst", "amt", "anast", "anat", "apr", "april", "art", "ast",
    "at", "aug", "august", "awsst", "awst", "awt", "azost", "azot", "azst", "azt", "bc", "bdst", "bdt",
    "bnt", "bort", "bot", "bra", "bst", "bt", "btt", "c", "cadt", "cast", "cat", "cct", "cdt", "cent",
    "centuries", "century", "cest", "cet", "cetdst", "chadt", "chast", "ckt", "clst", "clt", "cot",
    "cst", "current", "cvt", "cxt", "d", "davt", "day", "days", "ddut", "dec", "decade", "decades",
    "december", "decs", "dnt", "dow", "doy", "dst", "easst", "east", "eat", "edt", "eest", "eet",
    "eetdst", "egst", "egt", "epoch", "est", "feb", "february", "fjst", "fjt", "fkst", "fkt", "fri",
    "friday", "fst", "fwt", "galt", "gamt", "gest", "get", "gft", "gilt", "gmt", "gst", "gyt", "h",
    "hdt", "hkt", "hour", "hours", "hr", "hrs", "hst", "ict", "idle", "idlw", "inf", "infinite",
    "infinity", "invalid", "iot", "irkst", "irkt", "irt", "isodow", "ist", "it", "j", "jan", "january",
    "javt", "jayt", "jd", "jst", "jt", "jul", "julian", "july", "jun", "june", "kdt", "kgst", "kgt",
    "kost", "krast", "krat", "kst", "lhdt", "lhst", "ligt", "lint", "lkt", "m", "magst", "magt", "mar",
    "march", "mart", "mawt", "may", "mdt", "mest", "met", "metdst", "mewt", "mez", "mht", "microsecon",
    "midnight", "mil", "millennia", "millennium", "millisecon", "mils", "min", "mins", "minute",
    "minutes", "mm", "mmt", "mon", "monday", "mons", "month", "months", "mpt", "ms", "msd", "msec",
    "msecond", "mseconds", "msecs", "msk", "mst", "mt", "mut", "mvt", "myt", "nan", "nct", "ndt", "nft",
    "noon", "nor", "nov", "november", "novst", "novt", "now", "npt", "nst", "nt", "nut", "nzdt", "nzst",
    "nzt", "oct", "october", "omsst", "omst", "on", "pdt", "pet", "petst", "pett", "pgt", "phot", "pht",
    "pkt", "pm", "pmdt", "pont", "pst", "pwt", "pyst", "pyt", "qtr", "quarter", "ret", "s", "sadt",
    "sast", "sat", "saturday", "sct", "sec", "second", "seconds", "secs", "sep", "sept", "september",
    "set", "sst", "sun", "sunday", "swt", "t", "tft", "that", "thu", "thur", "thurs", "thursday",
    "timezone", "tjt", "tkt", "tmt", "today", "tomorrow", "tot", "truk", "tue", "tues", "tuesday",
    "tvt", "ulast", "ulat", "undefined", "us", "usec", "usecond", "useconds", "usecs", "ut", "utc",
    "uyst", "uyt", "uzst", "uzt", "vet", "vlast", "vlat", "vut", "w", "wadt", "wakt", "wast", "wat",
    "wdt", "wed", "wednesday", "weds", "week", "weeks", "west", "wet", "wetdst", "wft", "wgst", "wgt",
    "wst", "y", "yakst", "yakt", "yapt", "ydt", "year", "years", "yekst", "yekt", "yesterday", "yr",
    "yrs", "yst", "z", "zulu",
];

const MONTHS_AND_DAYS: &[&str] = &[
    "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug", "august", "sep", "sept", "september", "oct", "october",
    "nov", "november", "dec", "december", "mon", "monday", "tue", "tues", "tuesday", "wed", "weds", "wednesday", "thu", "thur", "thurs", "thursday", "fri", "friday", "sat",
    "saturday", "sun", "sunday",
];
const ZONES: &[&str] = &[
    "UTC", "GMT", "EST", "PST", "CET", "MSK", "JST", "Z", "zulu", "+08", "-08", "+08:00", "-0330", "+5:30", "America/New_York", "EST5EDT", "GMT+3",
];
const KEYWORDS: &[&str] = &["now", "today", "tomorrow", "yesterday", "epoch", "invalid", "current", "undefined"];

fn unknown_word(r: &mut Rng) -> String {
    loop {
        let n = r.range(3, 9);
        let w: String = (0..n)
            .map(|_| {
                if r.chance(1, 3) {
                    *r.pick(&['a', 'e', 'i', 'o', 'u'])
                } else {
                    (b'a' + r.below(26) as u8) as char
                }
            })
            .collect();
        // near misses of real words are the interesting ones
        let w = if r.chance(1, 2) {
            let mut k: Vec<u8> = r.pick(KNOWN_WORDS).bytes().collect();
            match r.below(4) {
                0 if k.len() > 3 => {
                    k.pop();
                }
                1 => k.push(b'a' + r.below(26) as u8),
                2 => {
                    let i = r.below(k.len() as u64) as usize;
                    k[i] = b'a' + r.below(26) as u8;
                }
                _ => {
                    let i = r.below(k.len() as u64) as usize;
                    k.insert(i, b'a' + r.below(26) as u8);
                }
            }
            String::from_utf8(k).unwrap()
        } else {
            w
        };
        if w.len() >= 2 && w.len() <= 9 && !KNOWN_WORDS.contains(&w.as_str()) {
            return if r.chance(1, 4) { recase(r, &w) } else { w };
        }
    }
}

pub fn unknown_or_known(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        unknown_word(r)
    } else {
        r.pick(KNOWN_WORDS).to_string()
    }
}

/// characters that no date, time or interval contains
const STRAY: &[&str] = &["\u{e9}", "\0", "\x0b", "\x7f", "\u{a0}", "\u{4e2d}", "\u{ff11}", "\x01", "\u{2212}", "\u{661}", "\u{1f4c5}", "\x1b", "\u{feff}"];

fn stray(r: &mut Rng, text: &str) -> String {
    let at = match r.below(3) {
        0 => 0,
        1 => text.len(),
        _ => r.below(text.len() as u64 + 1) as usize,
    };
    let c = *r.pick(STRAY);
    format!("{}{}{}", &text[..at], c, &text[at..])
}

fn rejected_d(text: &str, or: Or) -> Result<(), String> {
    match parse_d(text, or) {
        Ok(n) => Err(format!("date accepted as {}", show_d(n))),
        Err(e) => shown(&e),
    }
}
fn rejected_t(text: &str, or: Or) -> Result<(), String> {
    match parse_t(text, -1, or) {
        Ok(n) => Err(format!("timestamp accepted as {}", show_t(n))),
        Err(e) => shown(&e),
    }
}
fn rejected_tm(text: &str, or: Or) -> Result<(), String> {
    match parse_tm(text, -1, or) {
        Ok(n) => Err(format!("time accepted as {} us", n)),
        Err(e) => shown(&e),
    }
}
fn rejected_iv(text: &str, st: Is) -> Result<(), String> {
    match parse_iv(text, -1, st) {
        Ok(v) => Err(format!("interval accepted as {:?}", v)),
        Err(e) => shown(&e),
    }
}
fn shown(e: &DateTimeError) -> Result<(), String> {
    if format!("{}", e).is_empty() {
        Err("error with an empty message".into())
    } else {
        Ok(())
    }
}

/// a clock that names no time of day
fn bad_clock(r: &mut Rng) -> (Clock, &'static str) {
    let mut c = clock_rand(r);
    let class = match r.below(6) {
        0 => {
            c.h = *r.pick(&[25, 26, 30, 48, 60, 99, 24]);
            if c.h == 24 {
                c.mi = r.range(1, 59);
            }
            "hour beyond 24"
        }
        1 => {
            c.h = r.range(25, 99);
            "hour beyond 24"
        }
        2 => {
            c.mi = *r.pick(&[60, 61, 99, 75]);
            "minute beyond 59"
        }
        3 => {
            c.mi = r.range(60, 99);
            "minute beyond 59"
        }
        4 => {
            c.s = r.range(61, 99);
            "second beyond 60"
        }
        _ => {
            c = Clock { h: 24, mi: 0, s: 0, fr: 0, nd: 0 };
            match r.below(3) {
                0 => c.s = r.range(1, 59),
                1 => c.mi = r.range(1, 59),
                _ => {
                    c.nd = 6;
                    c.fr = r.range(1, 999_999);
                }
            }
            "after 24:00:00"
        }
    };
    (c, class)
}

fn good_ymd(r: &mut Rng) -> (i64, i64, i64) {
    let y = match r.below(4) {
        0 => r.range(100, 1969),
        1 => r.range(2070, 9999),
        _ => r.range(1970, 2069),
    };
    let m = r.range(1, 12);
    (y, m, r.range(1, mdays(y, m)))
}

/// a date that names no day
fn bad_ymd(r: &mut Rng) -> (i64, i64, i64, &'static str) {
    let (y, m, d) = good_ymd(r);
    match r.below(6) {
        0 => (y, r.range(13, 99), d, "month beyond 12"),
        1 => (y, 0, d, "month 0"),
        2 => (y, m, 0, "day 0"),
        3 => (y, m, r.range(32, 99), "day beyond 31"),
        4 => {
            let m = *r.pick(&[2, 4, 6, 9, 11]);
            (y, m, r.range(mdays(y, m) + 1, 31), "day beyond the month")
        }
        _ => {
            let y = *r.pick(&[1700, 1800, 1900, 2100, 2001, 1999, 2023, 1970]);
            (y, 2, 29, "29 February of a common year")
        }
    }
}

const KNOWN_P10: &str = "a time of day without a date (\"04:05:06\", \"monday 04:05\") is read as a date or timestamp on 0002-11-30 BC";

pub fn p10(run: &mut Run) {
    let compact = super::order::known_findings("P09");
    let known = super::order::known_findings("P10").iter().any(|k| k.contains("0002-11-30 BC"));
    run.rule = "text with one deliberate fault (field out of range, repeated or missing field, unknown word, keyword, zone, stray character, over-long or overflowing number) in a spelling that is otherwise accepted; every such text must be an error; distinct by text".into();
    let n = run.n(1_000_000, 30_000_000);
    run.shards(100, n, |sh, r, i| {
        let or = *r.pick(&ORDERS);
        let wild = r.chance(1, 4);
        match i % 10 {
            0 | 1 => {
                let (y, m, d, class) = bad_ymd(r);
                let kind = r.below(DATE_KINDS as u64) as usize;
                let time = if r.chance(1, 3) { Some((clock_rand(r), r.below(TIME_KINDS as u64) as usize)) } else { None };
                let timed = time.is_some();
                let Some(sp) = spell(r, y, m, d, or, kind, time) else { return };
                let text = if wild { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
                sh.check(class, hash_str(&text), || format!("{:?} {:?} ({}-{}-{})", text, or, y, m, d), || {
                    rejected_d(&text, or)?;
                    rejected_t(&text, or)?;
                    // a clock beside it does not make it a time of day
                    if timed {
                        rejected_tm(&text, or)?;
                    }
                    Ok(())
                });
                if sp.self_id && !sp.class.contains("two-digit") {
                    sh.observe("under every order");
                    for or in ORDERS {
                        if let Err(e) = guarded(|| rejected_d(&text, or)).unwrap_or_else(Err) {
                            sh.check("self-identifying", 0, || format!("{:?} {:?}", text, or), || Err(e));
                        }
                    }
                }
            }
            2 => {
                let (y, m, d) = good_ymd(r);
                let (c, class) = bad_clock(r);
                let tk = r.below(TIME_KINDS as u64) as usize;
                let kind = r.below(DATE_KINDS as u64) as usize;
                let Some(sp) = spell(r, y, m, d, or, kind, Some((c, tk))) else { return };
                let text = if wild { fancy(r, &sp.pieces, true, true) } else { plain(&sp.pieces) };
                sh.check(class, hash_str(&text), || format!("timestamp {:?} {:?}", text, or), || {
                    rejected_t(&text, or)?;
                    rejected_d(&text, or)
                });
                let Some(mut tf) = time_form(r, c, tk) else { return };
                if tf.needs_date {
                    return;
                }
                if tf.labelled {
                    tf.pieces[2].1 = "mm".into();
                }
                let text = if wild { fancy(r, &tf.pieces, true, true) } else { plain(&tf.pieces) };
                sh.check(class, hash_str(&text), || format!("time {:?} {:?}", text, or), || rejected_tm(&text, or));
            }
            3 => {
                // day of year, year 0, AM/PM hours
                let (y, m, d) = good_ymd(r);
                let (text, class) = match r.below(5) {
                    0 | 1 => {
                        let n = match r.below(3) {
                            0 => 0,
                            1 => 367,
                            _ => r.range(367, 999),
                        };
                        let short = r.chance(1, 4);
                        let or2 = if short { Or::Ymd } else { or };
                        let Some(f) = doy_form(r, y, n, or2, short) else { return };
                        let text = plain(&f.pieces);
                        sh.check("impossible day of year", hash_str(&text), || format!("{:?} {:?}", text, or2), || {
                            rejected_d(&text, or2)?;
                            rejected_t(&text, or2)
                        });
                        return;
                    }
                    2 => {
                        let e = *r.pick(&["", " BC", " AD"]);
                        let t = match r.below(6) {
                            0 => format!("0000-{:02}-{:02}{}", m, d, e),
                            1 => format!("{} {:02} 0000{}", MON[m as usize - 1], d, e),
                            2 => format!("{:02}-{}-0000{}", d, MON[m as usize - 1], e),
                            3 => format!("0000{:02}{:02}{}", m, d, e),
                            4 => format!("0000-{:03}{}", r.range(1, 365), e),
                            _ => format!("y0m{}d{}{}", m, d, e),
                        };
                        (t, "year 0")
                    }
                    3 => {
                        let h = r.range(13, 24);
                        let ap = *r.pick(&["AM", "PM", "am", "pm"]);
                        let g = *r.pick(&["", " "]);
                        let t = if r.chance(1, 2) {
                            format!("{}:{:02}{}{}", h, r.range(0, 59), g, ap)
                        } else {
                            format!("{}:{:02}:{:02}{}{}", h, r.range(0, 59), r.range(0, 59), g, ap)
                        };
                        sh.check("13 PM", hash_str(&t), || format!("time {:?}", t), || rejected_tm(&t, or));
                        (format!("{:04}-{:02}-{:02} {}", y, m, d, t), "13 PM")
                    }
                    _ => {
                        // results outside the supported range
                        let (y, date_bad) = match r.below(4) {
                            0 => (r.range(5_874_898, 99_999_999), true),
                            1 => (r.range(294_277, 5_874_897), false),
                            2 => (-r.range(4714, 99_999), true),
                            _ => (*r.pick(&[5_874_898, -4714, -4715, 2_147_483_647, 2_147_483_646, 999_999_999]), true),
                        };
                        let day = r.range(1, 28);
                        let kind = *r.pick(&[0usize, 8, 9, 10, 20, 21]);
                        let Some(sp) = spell(r, y, m, day, or, kind, None) else { return };
                        let text = plain(&sp.pieces);
                        sh.check("outside the supported range", hash_str(&text), || format!("{:?} {:?}", text, or), || {
                            if date_bad {
                                rejected_d(&text, or)?;
                            }
                            rejected_t(&text, or)
                        });
                        return;
                    }
                };
                sh.check(class, hash_str(&text), || format!("{:?} {:?}", text, or), || {
                    if class != "13 PM" {
                        rejected_d(&text, or)?;
                    }
                    rejected_t(&text, or)
                });
            }
            4 => {
                // repeated or contradictory fields, incomplete dates
                let (y, m, d) = good_ymd(r);
                let (y2, m2, d2) = good_ymd(r);
                let date = |r: &mut Rng, y: i64, m: i64, d: i64| loop {
                    let kind = r.below(DATE_KINDS as u64) as usize;
                    if matches!(kind, 3 | 4 | 16) {
                        continue;
                    }
                    if let Some(f) = date_form(r, y, m, d, or, kind) {
                        let t = plain(&f.pieces);
                        // "2022.205" after a date is 20:22 and a fraction
                        if t.len() > 5 && t.as_bytes()[4] == b'.' && t.bytes().filter(|b| !b.is_ascii_digit()).count() == 1 {
                            continue;
                        }
                        return t;
                    }
                };
                let hms = |r: &mut Rng| format!("{:02}:{:02}:{:02}", r.range(0, 23), r.range(0, 59), r.range(0, 59));
                let mon = |r: &mut Rng| MON[r.below(12) as usize];
                let (text, class) = match r.below(9) {
                    0 => (format!("{} {}", date(r, y, m, d), date(r, y2, m2, d2)), "two dates"),
                    1 => (format!("{} {} {}", date(r, y, m, d), hms(r), hms(r)), "two clocks"),
                    2 => (format!("{} {} {} {:04}", mon(r), mon(r), d, y), "two month names"),
                    3 => (format!("{:04}-{:02}-{:02} {}", y, m, d, mon(r)), "a month name beside a date"),
                    4 => (format!("{} {} {:04}", WDAY[r.below(7) as usize], WDAY[r.below(7) as usize], y), "weekdays, no date"),
                    5 => (format!("{} {:02}", mon(r), r.range(1, 31)), "month and day only"),
                    6 => (format!("{} {:04}", mon(r), y), "month and year only"),
                    7 => (format!("{:04}-{:02}", y, m), "year and month only"),
                    _ => (format!("J{} {:04}-{:02}-{:02}", day_of(y, m, d) + 2_451_545, y2, m2, d2), "two dates"),
                };
                sh.check(class, hash_str(&text), || format!("{:?} {:?}", text, or), || {
                    rejected_d(&text, or)?;
                    rejected_t(&text, or)
                });
                if !class.starts_with("two clocks") {
                    let timed = format!("{} {}", text, hms(r));
                    sh.check(class, hash_str(&timed), || format!("{:?} {:?}", timed, or), || {
                        rejected_t(&timed, or)?;
                        rejected_tm(&timed, or)
                    });
                }
                // a clock alone names no date and no timestamp
                let c = clock_rand(r);
                let tk = r.below(TIME_KINDS as u64) as usize;
                let c = fit(r, c, tk);
                if let Some(tf) = time_form(r, c, tk) {
                    // six digits are also a date
                    if !tf.needs_date && !tf.labelled && c.nd < 7 && c.h < 24 && c.s < 60 && !tf.class.contains("compact") {
                        let t = plain(&tf.pieces);
                        let text = match r.below(6) {
                            0 => format!("{} {}", WDAY[r.below(7) as usize], t),
                            1 => format!("{} {}", t, r.pick(&["AD", "BC"])),
                            _ => t,
                        };
                        let odd = DAY * day_of(-1, 11, 30) + c.us();
                        let mut seen = false;
                        sh.check("clock without a date", hash64(&[5, hash_str(&text)]), || format!("{:?} {:?} read as a date or timestamp", text, or), || {
                            for (got, finding) in [(parse_d(&text, or).map(show_d), show_d(odd.div_euclid(DAY))), (parse_t(&text, -1, or).map(show_t), show_t(odd))] {
                                match got {
                                    Err(e) => shown(&e)?,
                                    // the listed finding: the parts of an unset date
                                    Ok(g) if known && g == finding => seen = true,
                                    Ok(g) => return Err(format!("accepted as {}", g)),
                                }
                            }
                            Ok(())
                        });
                        if seen {
                            *sh.known.entry(KNOWN_P10.to_string()).or_insert(0) += 1;
                        }
                    }
                }
                let two = format!("{} {}", hms(r), hms(r));
                sh.check("two clocks", hash_str(&two), || format!("time {:?}", two), || rejected_tm(&two, or));
            }
            5 => {
                // foreign words, keywords and zones in otherwise good text
                let (y, m, d) = good_ymd(r);
                let kind = r.below(DATE_KINDS as u64) as usize;
                let time = if r.chance(1, 2) {
                    let mut c = clock_rand(r);
                    if c.h == 24 {
                        c.h = 0;
                    }
                    Some((c, *r.pick(&[0usize, 2, 3])))
                } else {
                    None
                };
                let Some(sp) = spell(r, y, m, d, or, kind, time) else { return };
                let base = plain(&sp.pieces);
                let (word, class) = match r.below(3) {
                    0 => (unknown_word(r), "unknown word"),
                    1 => (r.pick::<&str>(KEYWORDS).to_string(), "keyword"),
                    _ => (r.pick::<&str>(ZONES).to_string(), "zone"),
                };
                let text = match r.below(3) {
                    0 => format!("{} {}", word, base),
                    _ => format!("{} {}", base, word),
                };
                sh.check(class, hash_str(&text), || format!("{:?} {:?}", text, or), || {
                    rejected_d(&text, or)?;
                    rejected_t(&text, or)
                });
                let c = clock_rand(r);
                let tk = *r.pick(&[0usize, 2, 3]);
                let Some(tf) = time_form(r, c, tk) else { return };
                let text = if r.chance(1, 2) { format!("{} {}", plain(&tf.pieces), word) } else { format!("{} {}", word, plain(&tf.pieces)) };
                sh.check(class, hash_str(&text), || format!("time {:?}", text), || rejected_tm(&text, or));
                let alone = word.clone();
                sh.check("word alone", hash_str(&alone), || format!("{:?}", alone), || {
                    rejected_d(&alone, or)?;
                    rejected_t(&alone, or)?;
                    rejected_tm(&alone, or)
                });
                let mixed = format!("{} {}", base, *r.pick(&["infinity", "-infinity", "INFINITY"]));
                let mixed = if r.chance(1, 2) { format!("infinity {}", base) } else { mixed };
                sh.check("infinity beside fields", hash_str(&mixed), || format!("{:?}", mixed), || {
                    rejected_d(&mixed, or)?;
                    rejected_t(&mixed, or)
                });
            }
            6 => {
                // stray characters, blanks, punctuation, over-long text
                let (y, m, d) = good_ymd(r);
                let kind = r.below(DATE_KINDS as u64) as usize;
                match r.below(4) {
                    0 | 1 => {
                        let c = clock_rand(r);
                        let time = if r.chance(1, 2) { Some((c, *r.pick(&[0usize, 2, 3]))) } else { None };
                        let Some(sp) = spell(r, y, m, d, or, kind, time) else { return };
                        let text = stray(r, &plain(&sp.pieces));
                        sh.check("stray character", hash_str(&text), || format!("{:?} {:?}", text, or), || {
                            rejected_d(&text, or)?;
                            rejected_t(&text, or)
                        });
                        let tk = *r.pick(&[0usize, 2, 3]);
                        if let Some(tf) = time_form(r, c, tk) {
                            let text = stray(r, &plain(&tf.pieces));
                            sh.check("stray character", hash_str(&text), || format!("time {:?}", text), || rejected_tm(&text, or));
                        }
                        let v = gen::iv_printable_gen(r);
                        let pst = *r.pick(&ISTYLES);
                        let text = stray(r, &print_iv(v, pst));
                        let st = *r.pick(&ISTYLES);
                        sh.check("stray character", hash_str(&text), || format!("interval {:?}", text), || rejected_iv(&text, st));
                    }
                    2 => {
                        let n = r.range(0, 6);
                        let text: String = (0..n).map(|_| *r.pick(&[" ", "\t", "\n", ",", ";", "!", "(", "#", "@", "*", "_", "/", ":"])).collect();
                        // what remains after removing what separates fields
                        sh.check("no fields at all", hash_str(&text), || format!("{:?}", text), || {
                            rejected_d(&text, or)?;
                            rejected_t(&text, or)?;
                            rejected_tm(&text, or)?;
                            rejected_iv(&text, *[Is::Pg, Is::Sql].get(n as usize % 2).unwrap())
                        });
                    }
                    _ => {
                        let digits: String = (0..r.range(11, 40)).map(|_| (b'1' + r.below(9) as u8) as char).collect();
                        let text = match r.below(5) {
                            0 => format!("{}-{:02}-{:02}", digits, m, d),
                            1 => format!("{:04}-{:02}-{:02}{}", y, m, d, digits),
                            2 => format!("{:04}-{:02}-{:02} {}:00:00", y, m, d, digits),
                            3 => format!("J{}", digits),
                            _ => format!("{} {} {}", MON[m as usize - 1], d, digits),
                        };
                        sh.check("over-long number", hash_str(&text), || format!("{:?} {:?}", text, or), || {
                            rejected_d(&text, or)?;
                            rejected_t(&text, or)
                        });
                        let many = vec!["1"; r.range(26, 60) as usize].join(" ");
                        sh.check("too many fields", hash_str(&many), || format!("{:?}", many), || {
                            rejected_d(&many, or)?;
                            rejected_t(&many, or)?;
                            rejected_tm(&many, or)?;
                            rejected_iv(&many, Is::Pg)
                        });
                    }
                }
            }
            _ => {
                // intervals
                let st = *r.pick(&ISTYLES);
                let u = *r.pick(&ispell::ALL_UNITS);
                let w = *r.pick(u.words());
                let k = r.range(1, 500);
                let (text, class): (String, &'static str) = match r.below(14) {
                    0 => (format!("{} {}", k, unknown_word(r)), "unknown unit"),
                    1 => {
                        let a = format!("{} {} {} {}", k, w, r.range(1, 90), r.pick(u.words()));
                        (a, "unit given twice")
                    }
                    2 => {
                        let x = *r.pick(&[2_147_483_648i64, 3_000_000_000, 9_999_999_999, 2_147_483_649]);
                        (format!("{}{} {}", r.pick(&["", "+"]), x, w), "number beyond 32 bits")
                    }
                    3 => {
                        let digits: String = (0..r.range(11, 30)).map(|_| (b'1' + r.below(9) as u8) as char).collect();
                        (format!("{}{} {}", r.pick(&["", "-"]), digits, w), "over-long number")
                    }
                    4 => {
                        let f: String = (0..r.range(8, 20)).map(|_| (b'1' + r.below(9) as u8) as char).collect();
                        (format!("{}.{} {}", k, f, w), "over-long fraction")
                    }
                    5 => {
                        let (mi, s) = if r.chance(1, 2) { (r.range(60, 99), r.range(0, 59)) } else { (r.range(0, 59), r.range(61, 99)) };
                        (format!("{}{}:{:02}:{:02}", r.pick(&["", "-", "1 day "]), r.range(0, 99), mi, s), "clock out of range")
                    }
                    6 => (format!("{}{}-{}", r.pick(&["", "-", "+"]), k, r.range(12, 99)), "month beyond 11 in a year-month"),
                    7 => (r.pick::<&str>(&["days", "ago", "5 ago days x", "- days", "5 quarters", "infinity", "-infinity", "now", "1 timezone", "5 days 3 jan", "1:2:3:4", "1..2 days", "1.2.3 days", "5 days -", "5 days +", "1-2-3", "5 qtr", "epoch", "+", "-", "5 days 10:00 am", "1 hour 00:00:01", "00:01 1 sec", "00:01:02 3 minutes", "1-2 3 mons"]).to_string(), "malformed interval"),
                    8 => {
                        let x = r.range(179_000_000, 2_147_483_647);
                        (format!("{} {}", x, r.pick(&["years", "decades", "centuries", "millennia", "yr"])), "months do not fit")
                    }
                    9 => (format!("{} weeks", r.range(306_783_379, 2_147_483_647)), "days do not fit"),
                    10 => {
                        let x = r.range(1, 9);
                        (r.pick(&[
                            format!("p{}d", x), format!("P{}H", x), format!("PT{}D", x), format!("PT{}Y", x), format!("PT{}W", x), format!("P{}X", x), format!("PT{}X", x),
                            "PY".into(), "PTS".into(), "P".into(), format!("P{}D{}", x, x), format!("P+{}D", x), format!("P{}DT{}", x, "Z"), format!("P-000{}-01-02", x), format!("P000{}-01-02-03", x),
                            format!("P000{}/01/02", x), format!("PT0{}:00:00:00", x), format!("PT0{}:xx", x), format!("P{}Y{}", x, "M"), format!("PP{}D", x), format!("P{}D x", x),
                            format!("xP{}D", x), format!("P0{}.{}.{}D", x, x, x),
                        ]).clone(), "malformed iso 8601")
                    }
                    11 => (format!("P{}{}", r.pick(&["2147483648", "3000000000", "99999999999", "-2147483649"]), r.pick(&["Y", "M", "W", "D"])), "iso 8601 number beyond 32 bits"),
                    12 => (format!("P{}Y", r.range(178_956_971, 2_147_483_647)), "iso 8601 months do not fit"),
                    _ => (format!("{} {} {}", k, w, unknown_word(r)), "unknown word in interval"),
                };
                let text = if wild && !text.contains(['P', 'p']) { recase(r, &text) } else { text };
                sh.check(class, hash_str(&text), || format!("interval {:?} under {:?}", text, st), || rejected_iv(&text, st));
            }
        }
    });
    // any text, against the reference readers
    run.shards(104, run.n(1_200_000, 60_000_000), |sh, r, _| crate::dref::agrees(sh, r));
    run.shards(105, run.n(400_000, 20_000_000), |sh, r, _| crate::iref::agrees(sh, r, &compact, false));
    // every word that means something somewhere, where it means nothing
    let total = KNOWN_WORDS.len() as u64 + 2;
    run.shards(102, total.div_ceil(SHARDS as u64), |sh, r, i| {
        let k = i * SHARDS as u64 + sh.id as u64;
        if k >= total {
            return;
        }
        let word = if k < KNOWN_WORDS.len() as u64 { KNOWN_WORDS[k as usize] } else { ["timezone_h", "timezone_m"][k as usize - KNOWN_WORDS.len()] };
        let in_date = MONTHS_AND_DAYS.contains(&word) || ["ad", "bc", "am", "pm", "at", "on", "allballs"].contains(&word);
        let label = ["d", "h", "m", "mm", "s", "y", "j", "jd", "julian", "dow", "doy", "isodow", "t"].contains(&word);
        let base = "2022-03-04";
        let w = recase(r, word);
        if !in_date {
            let mut texts = vec![format!("{} {}", base, w), format!("{} 12:10:05 {}", base, w), format!("{} {}", w, base), format!("{} {} 12:10:05", base, w)];
            if !label {
                texts.extend([format!("5 jan {} 1999", w), format!("5 jan 1999 {}", w), format!("{} 5 jan 1999", w), format!("jan {} 5, 1999 10:11", w), format!("20220304 {}", w), format!("2022.064 {}", w), format!("J2459643 {}", w), format!("J2459643{}", w)]);
            }
            for text in texts {
                if word == "t" && text.ends_with("12:10:05") {
                    continue;
                }
                for or in ORDERS {
                    sh.check("foreign word", hash_str(&text), || format!("{:?} {:?}", text, or), || {
                        rejected_d(&text, or)?;
                        rejected_t(&text, or)?;
                        rejected_tm(&text, or)
                    });
                }
            }
            if !(word.starts_with("inf")) {
                sh.check("foreign word alone", hash_str(word), || format!("{:?}", w), || {
                    rejected_d(&w, Or::Ymd)?;
                    rejected_t(&w, Or::Ymd)?;
                    rejected_tm(&w, Or::Ymd)
                });
            }
            let mut texts = vec![format!("12:10:05 {}", w), format!("12:10 {}", w), format!("12:10:05.5 {} pm", w)];
            if word != "t" {
                texts.push(format!("{} 12:10:05", w));
            }
            for text in texts {
                sh.check("foreign word beside a clock", hash_str(&text), || format!("time {:?}", text), || rejected_tm(&text, Or::Ymd));
            }
        }
        // labels and eras need something to go with; a label needs its number
        if label && word != "t" {
            for text in [format!("{} {}", base, w), format!("{} 12:10:05 {}", base, w), format!("y 1999 m 5 d 6 {}", w), format!("{} y 1999 m 5 d 6", w), format!("y 1999 {} m 5 d 6", w), format!("infinity {}", w), format!("{} infinity", w)] {
                for or in ORDERS {
                    sh.check("label without a number", hash_str(&text), || format!("{:?} {:?}", text, or), || {
                        rejected_d(&text, or)?;
                        rejected_t(&text, or)
                    });
                }
            }
            for text in [format!("12:10:05 {}", w), format!("{} 12:10:05", w), format!("h 12 m 10 s 5 {}", w), format!("{} h 12 m 10 s 5", w), format!("12:10:05 y 5 {}", w)] {
                sh.check("label without a number", hash_str(&text), || format!("time {:?}", text), || rejected_tm(&text, Or::Ymd));
            }
            for n in [1, 5, 12, 1999] {
                for text in [format!("12:10:05 {} {}", w, n), format!("{} {} 12:10:05", w, n), format!("12:10 {}{}", w, n)] {
                    if word.starts_with('j') || ["dow", "isodow"].contains(&word) {
                        continue;
                    }
                    sh.check("part of a date beside a clock", hash_str(&text), || format!("{:?}", text), || {
                        rejected_tm(&text, Or::Ymd)?;
                        rejected_d(&text, Or::Ymd)?;
                        rejected_t(&text, Or::Ymd)
                    });
                }
            }
        }
        let unit = ispell::ALL_UNITS.iter().any(|u| u.words().contains(&word));
        if unit {
            for st in ISTYLES {
                let u = *r.pick(&ispell::ALL_UNITS);
                let o = *r.pick(u.words());
                for text in [w.clone(), format!("{} 1 day", w), format!("1 day {}", w), format!("1 {} {}", o, w), format!("1 {} {}", w, o), format!("1 {} 2 {} {}", w, o, o), format!("1-2 {} {}", o, w), format!("1 day {} ago", w), format!("{} 1:00", w), format!("{}", ["@", "+", "-", "@ +"][r.below(4) as usize]) + " " + &w] {
                    sh.check("unit without a number", hash_str(&text), || format!("interval {:?} under {:?}", text, st), || rejected_iv(&text, st));
                }
            }
        }
        // ten characters identify a keyword
        if !unit && !["microsecon", "millisecon"].contains(&word) && word != "ago" {
            for st in ISTYLES {
                for text in [format!("5 {}", w), format!("5{}", w), format!("1 day 5 {}", w), format!("1 day {}", w), format!("{} 1 day", w), w.clone(), format!("1 day {} ago", w), format!("1-2 {}", w), format!("12:10:05 {}", w)] {
                    // a unit word after a year-month or clock says nothing (as in PostgreSQL)
                    if ["qtr", "quarter", "timezone", "timezone_h", "timezone_m"].contains(&word) && !text.contains("day") && text.contains(['-', ':']) {
                        continue;
                    }
                    sh.check("foreign word in an interval", hash_str(&text), || format!("interval {:?} under {:?}", text, st), || rejected_iv(&text, st));
                }
            }
        }
    });
    for c in ["foreign word", "foreign word alone", "foreign word beside a clock", "label without a number", "unit without a number", "part of a date beside a clock", "foreign word in an interval"] {
        run.require(c, 20);
    }
    super::audit::shards(run, 101, run.n(1_000_000, 60_000_000));
    for c in ["a date, by the reference reader", "a time of day, by the reference reader", "an interval, by the reference reader"] {
        run.require(c, 10_000);
    }
    for c in ["accepted date, every field witnessed", "accepted timestamp, every field witnessed", "accepted time, every field witnessed"] {
        run.require(c, 1000);
    }
    for c in [
        "month beyond 12", "month 0", "day 0", "day beyond 31", "day beyond the month", "29 February of a common year", "hour beyond 24", "minute beyond 59", "second beyond 60",
        "after 24:00:00", "impossible day of year", "year 0", "13 PM", "outside the supported range", "two dates", "two clocks", "two month names", "a month name beside a date",
        "month and day only", "month and year only", "year and month only", "clock without a date", "unknown word", "keyword", "zone", "word alone", "infinity beside fields", "stray character",
        "no fields at all", "over-long number", "too many fields", "unknown unit", "unit given twice", "number beyond 32 bits", "over-long fraction", "clock out of range",
        "month beyond 11 in a year-month", "malformed interval", "months do not fit", "days do not fit", "malformed iso 8601", "iso 8601 number beyond 32 bits", "iso 8601 months do not fit",
        "unknown word in interval", "under every order",
    ] {
        run.require(c, 100);
    }
}

// ---- P13 -------------------------------------------------------------------

pub fn p13(run: &mut Run) {
    run.rule = "times, timestamps and intervals printed exactly and parsed with every precision; the result must be the value rounded half away from zero, idempotent, monotone and within half a unit; distinct by (value, precision)".into();
    let n = run.n(300_000, 15_000_000);
    run.shards(130, n, |sh, r, i| {
        let p = r.range(0, 6) as u32;
        let unit = 10i64.pow(6 - p);
        // bring values close to a tie often
        let near = |r: &mut Rng, v: i64| -> i64 {
            if unit == 1 || !r.chance(1, 2) {
                return v;
            }
            v.div_euclid(unit) * unit + unit / 2 + r.range(-1, 1)
        };
        let or = *r.pick(&ORDERS);
        match i % 4 {
            0 => {
                let t0 = gen::tod(r);
                let t = if r.chance(1, 30) { DAY - r.range(0, unit) } else { near(r, t0) }.clamp(0, DAY);
                let text = clock(t);
                let class = if t % unit == 0 { "time, already rounded" } else if t % unit == unit / 2 { "time, tie" } else { "time" };
                sh.check(class, hash64(&[1, t as u64, p as u64]), || format!("time {:?} precision {}", text, p), || {
                    let want = round_to(t, p) as i64;
                    let got = ok(parse_tm(&text, p as i32, or))?;
                    eq(got, want)?;
                    // stays put
                    eq(ok(parse_tm(&clock(got), p as i32, or))?, got)?;
                    for no in [-1, 7, 8, 100, -2, i32::MAX, i32::MIN, 65536] {
                        eq(ok(parse_tm(&text, no, or))?, t).map_err(|e| format!("precision {}: {}", no, e))?;
                    }
                    Ok(())
                });
            }
            1 | 2 => {
                let t0 = gen::ts(r);
                let mut v = near(r, t0);
                if r.chance(1, 50) {
                    v = TEND - r.range(1, unit + 1);
                }
                if !t_ok(v as i128) {
                    return;
                }
                let st = *r.pick(&STYLES);
                let (text, back) = (print_ts(v, st, Or::Dmy), Or::Dmy);
                let class = match (v < 0, v.rem_euclid(unit)) {
                    (_, 0) => "timestamp, already rounded",
                    (true, x) if x * 2 == unit => "timestamp before 2000, tie",
                    (false, x) if x * 2 == unit => "timestamp after 2000, tie",
                    (true, _) => "timestamp before 2000",
                    _ => "timestamp after 2000",
                };
                sh.check(class, hash64(&[2, v as u64, p as u64]), || format!("timestamp {:?} precision {}", text, p), || {
                    let want = round_to(v, p);
                    match parse_t(&text, p as i32, back) {
                        Err(_) if !t_ok(want) => return Ok(()),
                        Err(e) => return Err(format!("got error ({}), expected {}", e, want)),
                        Ok(got) => {
                            eq(got as i128, want)?;
                            if !t_ok(want) {
                                return Err("rounded out of the supported range".into());
                            }
                            eq(ok(parse_t(&print_ts(got, St::Iso, Or::Ymd), p as i32, or))?, got)?;
                        }
                    }
                    eq(ok(parse_t(&text, -1, back))?, v)?;
                    eq(ok(parse_t(&text, 6, back))?, v)
                });
                let bad = *r.pick(&[-2, -3, 7, 8, 100, i32::MAX, i32::MIN, 65536, -100]);
                sh.check("impossible timestamp precision", hash64(&[4, v as u64, bad as u64]), || format!("timestamp {:?} precision {}", text, bad), || {
                    meets(parse_t(&text, bad, back), Want::Error)
                });
                if !t_ok(round_to(v, p)) {
                    sh.observe("rounds out of range");
                }
            }
            _ => {
                let v0 = gen::iv_printable_gen(r);
                let mut v = v0;
                v.t = near(r, v0.t);
                if !iv_printable(v) || v.t / HOUR == i32::MIN as i64 || v.d == i32::MIN {
                    return;
                }
                let pst = *r.pick(&ISTYLES);
                let text = print_iv(v, pst);
                let tmod = ispell::typmod(&ispell::FULL, p as i32);
                let class = match (v.t < 0, v.t.rem_euclid(unit)) {
                    (_, 0) => "interval, already rounded",
                    (true, x) if x * 2 == unit => "interval below zero, tie",
                    (_, x) if x * 2 == unit => "interval, tie",
                    (true, _) => "interval below zero",
                    _ => "interval",
                };
                sh.check(class, hash64(&[3, v.key(), p as u64]), || format!("interval {:?} precision {}", text, p), || {
                    let want = crate::iv::Iv::new(v.m, v.d, round_to(v.t, p) as i64);
                    let st = if pst == Is::Sql { Is::Sql } else { Is::Pg };
                    let got = ok(parse_iv(&text, tmod, st))?;
                    eq(got, want)?;
                    if iv_printable(got) {
                        eq(ok(parse_iv(&print_iv(got, Is::Iso), tmod, Is::Pg))?, got)?;
                    }
                    eq(ok(parse_iv(&text, ispell::typmod(&ispell::FULL, 6), st))?, v)?;
                    eq(ok(parse_iv(&text, ispell::typmod(&ispell::FULL, 0xFFFF), st))?, v)?;
                    eq(ok(parse_iv(&text, -1, st))?, v)
                });
            }
        }
        if i % 64 == 0 {
            let s = *r.pick(&["infinity", "-infinity"]);
            sh.check("infinity", hash64(&[5, s.len() as u64, p as u64]), || format!("{} precision {}", s, p), || {
                let w = if s.starts_with('-') { TNEG } else { TPOS };
                eq(ok(parse_t(s, p as i32, or))?, w)?;
                eq(ok(parse_t(s, -1, or))?, w)
            });
        }
    });
    for c in ["time", "time, tie", "time, already rounded", "timestamp before 2000", "timestamp after 2000", "timestamp before 2000, tie", "timestamp after 2000, tie", "timestamp, already rounded", "impossible timestamp precision", "rounds out of range", "interval", "interval, tie", "interval below zero", "interval below zero, tie", "infinity"] {
        run.require(c, 50);
    }
}

// ---- P30 -------------------------------------------------------------------

#[derive(PartialEq, Debug, Clone)]
enum Read {
    D(i64),
    T(i64),
    Tm(i64),
    I(crate::iv::Iv),
    No,
}

fn read(what: u64, s: &str, or: Or, st: Is) -> Read {
    match what {
        0 => parse_d(s, or).map_or(Read::No, Read::D),
        1 => parse_t(s, -1, or).map_or(Read::No, Read::T),
        2 => parse_tm(s, -1, or).map_or(Read::No, Read::Tm),
        _ => parse_iv(s, -1, st).map_or(Read::No, Read::I),
    }
}

/// widens the blanks that are there, adds some at both ends, changes case
fn respace(r: &mut Rng, s: &str, case: bool) -> String {
    let mut o = String::new();
    if r.chance(1, 2) {
        o.push_str(r.pick::<&str>(&BLANKS));
    }
    let mut in_gap = false;
    for c in s.chars() {
        if c == ' ' {
            if !in_gap {
                o.push_str(r.pick::<&str>(&BLANKS));
                if r.chance(1, 4) {
                    o.push_str(r.pick::<&str>(&BLANKS));
                }
            }
            in_gap = true;
        } else {
            in_gap = false;
            o.push(c);
        }
    }
    if r.chance(1, 2) {
        o.push_str(r.pick::<&str>(&BLANKS));
    }
    if case {
        recase(r, &o)
    } else {
        o
    }
}

/// a text that need not mean anything
fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 7);
    let mut s = String::new();
    for k in 0..n {
        if k > 0 {
            if r.chance(5, 6) {
                s.push(' ');
            } else {
                s.push_str(r.pick::<&str>(&[",", "-", "/", ".", ":", "+", ", "]));
            }
        }
        match r.below(8) {
            0 | 1 => s.push_str(r.pick::<&str>(KNOWN_WORDS)),
            2 => s.push_str(&format!("{}", r.range(0, 31))),
            3 => s.push_str(&format!("{:04}", r.range(1, 9999))),
            4 => s.push_str(&format!("{:02}:{:02}", r.range(0, 25), r.range(0, 61))),
            5 => s.push_str(&format!("{}{}", r.pick(&["", "-", "+"]), r.range(0, 99))),
            6 => s.push_str(&unknown_word(r)),
            _ => s.push_str(&format!("{}.{}", r.range(0, 99), r.range(0, 999))),
        }
    }
    s
}

pub fn p30(run: &mut Run) {
    run.rule = "pairs of texts that differ only in letter case and in blanks around and between fields, well-formed, faulty and random; both must be rejected or denote the same value; distinct by text".into();
    let n = run.n(600_000, 20_000_000);
    run.shards(300, n, |sh, r, i| {
        let or = *r.pick(&ORDERS);
        let st = *r.pick(&ISTYLES);
        let (what, base, variant, class) = match i % 7 {
            6 => {
                // one keyword, perhaps signed, perhaps with a sign of its own field
                let w: &str = match r.below(4) {
                    0 => *r.pick(KNOWN_WORDS),
                    1 => *r.pick(&["epoch", "allballs", "now", "today", "tomorrow", "yesterday", "noon", "midnight", "invalid", "current", "nan", "undefined", "zulu", "z", "utc"]),
                    _ => *r.pick(&["infinity", "inf", "infinite", "+infinity", "-infinity", "- infinity", "+ infinity", "-inf", "-infinite", "--infinity"]),
                };
                let s = if r.chance(1, 6) { format!("{}{}", r.pick(&["-", "+"]), w) } else { w.to_string() };
                let what = r.below(4);
                if what == 3 && s.starts_with(['p', 'P']) {
                    return;
                }
                let t = respace(r, &s, true);
                (what, s, t, "one keyword")
            }
            0 | 1 => {
                let (y, m, d) = if r.chance(1, 6) {
                    let b = bad_ymd(r);
                    (b.0, b.1, b.2)
                } else {
                    civil(gen::day(r))
                };
                let kind = r.below(DATE_KINDS as u64) as usize;
                let time = if r.chance(1, 2) {
                    let c = if r.chance(1, 6) { bad_clock(r).0 } else { clock_rand(r) };
                    Some((c, r.below(TIME_KINDS as u64) as usize))
                } else {
                    None
                };
                let Some(sp) = spell(r, y, m, d, or, kind, time) else { return };
                let what = if time.is_some() { 1 } else { r.below(2) };
                let base = plain(&sp.pieces);
                let case = r.chance(2, 3);
                let spaces = r.chance(2, 3);
                let v = fancy(r, &sp.pieces, spaces, case);
                (what, base, v, if what == 0 { "date" } else { "timestamp" })
            }
            2 => {
                let c = if r.chance(1, 6) { bad_clock(r).0 } else { clock_rand(r) };
                let tk = r.below(TIME_KINDS as u64) as usize;
                let Some(tf) = time_form(r, c, tk) else { return };
                let case = r.chance(2, 3);
                let spaces = r.chance(2, 3);
                (2, plain(&tf.pieces), fancy(r, &tf.pieces, spaces, case), "time")
            }
            3 => {
                let big = r.chance(1, 4);
                let sp = ispell::traditional(r, &ispell::FULL, big);
                let case = r.chance(2, 3);
                let spaces = r.chance(2, 3);
                (3, plain(&sp.pieces), fancy(r, &sp.pieces, spaces, case), "interval")
            }
            4 => {
                let v = gen::iv_printable_gen(r);
                let s = print_iv(v, *r.pick(&[Is::Pg, Is::Verbose, Is::Sql]));
                let case = r.chance(2, 3);
                let t = respace(r, &s, case);
                (3, s, t, "printed interval")
            }
            _ => {
                let s = soup(r);
                let what = r.below(4);
                if what == 3 && s.starts_with(['p', 'P']) {
                    return; // may be ISO 8601, where case counts
                }
                let case = r.chance(2, 3);
                let t = respace(r, &s, case);
                (what, s, t, "random words")
            }
        };
        let mut accepted = false;
        sh.check(class, hash_str(&variant), || format!("{:?} against {:?} ({:?} {:?})", variant, base, or, st), || {
            let a = read(what, &base, or, st);
            let b = read(what, &variant, or, st);
            accepted = a != Read::No;
            if a == b {
                Ok(())
            } else {
                Err(format!("{:?} against {:?}", b, a))
            }
        });
        if base != variant {
            sh.observe(if accepted { "changed and accepted" } else { "changed and rejected" });
        }
    });
    // names of months and weekdays, in full, abbreviated, in any case
    run.shards(301, run.n(3_000, 60_000), |sh, r, _| {
        for m in 1..=12i64 {
            let y = r.range(1000, 9999);
            let d = r.range(1, mdays(y, m));
            let day = day_of(y, m, d);
            let or = *r.pick(&ORDERS);
            let full = recase(r, MONTHS[m as usize - 1]);
            let ab = recase(r, MON[m as usize - 1]);
            let wd = dow(day) as usize;
            let wfull = recase(r, WDAYS[wd]);
            let wab = recase(r, WDAY[wd]);
            for mw in [&full, &ab] {
                for ww in ["", wfull.as_str(), wab.as_str()] {
                    let text = format!("{} {} {} {}", ww, mw, d, y);
                    sh.check("names in full and abbreviated", hash_str(&text), || format!("{:?} {:?}", text, or), || eq(ok(parse_d(&text, or))?, day));
                }
            }
            if m == 9 {
                let text = format!("{} {} {}", recase(r, "sept"), d, y);
                sh.check("names in full and abbreviated", hash_str(&text), || text.clone(), || eq(ok(parse_d(&text, or))?, day));
            }
        }
    });
    for c in ["date", "timestamp", "time", "interval", "printed interval", "random words", "one keyword", "changed and accepted", "changed and rejected", "names in full and abbreviated"] {
        run.require(c, 1000);
    }
}
