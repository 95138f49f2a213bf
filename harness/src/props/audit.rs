//! Auditor for accepted text: every component of an accepted value must be
//! witnessed by a field of the text. Says nothing about what is rejected.
//! Catches defaults, carries and other values that the text never named.

use super::*;
use super::text::{parse_d, parse_t, parse_tm};
use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::spell::*;

struct Run_ {
    /// digits of the run
    s: String,
    v: i128,
    /// preceded by '.'
    frac: bool,
}

fn runs(text: &str) -> Vec<Run_> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let j = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let s = &text[j..i];
            if s.len() <= 30 {
                out.push(Run_ { s: s.to_string(), v: s.parse().unwrap(), frac: j > 0 && b[j - 1] == b'.' });
            }
        } else {
            i += 1;
        }
    }
    out
}

/// does a run of digits name this year (of the shown era)?
fn names_year(s: &str, y: i64) -> bool {
    let v: i128 = match s.parse() {
        Ok(v) => v,
        Err(_) => return false,
    };
    let shown = if y > 0 { y } else { 1 - y };
    if v == shown as i128 {
        return true;
    }
    s.len() <= 2 && y > 0 && (if v < 70 { v + 2000 } else { v + 1900 }) == y as i128
}

/// the runs that name the day may not be used for anything else; returns whether some reading names it
fn date_seen(low: &str, rs: &[Run_], day: i64) -> bool {
    let (y, m, d) = civil(day);
    if y <= 0 && !low.contains("bc") && !low.contains('j') {
        return false;
    }
    if low.contains('j') && rs.iter().any(|r| r.v == (day + 2_451_545).abs() as i128) {
        return true;
    }
    // "J .5" is half a day into day 0
    if low.contains('j') && low.contains('.') && day == -2_451_545 {
        return true;
    }
    let dy = doy(day);
    for (i, r) in rs.iter().enumerate() {
        let n = r.s.len();
        // run-together forms, perhaps with a clock behind
        for w in [n, n.wrapping_sub(6), n.wrapping_sub(4)] {
            if w > n || w < 5 {
                continue;
            }
            let t = &r.s[..w];
            if t[w - 4..].parse() == Ok(m * 100 + d) && names_year(&t[..w - 4], y) {
                return true;
            }
            if t[w - 3..].parse() == Ok(dy) && names_year(&t[..w - 3], y) {
                return true;
            }
        }
        if n == 3 && r.v == dy as i128 && rs.iter().enumerate().any(|(j, q)| j != i && names_year(&q.s, y)) {
            return true;
        }
    }
    const MON3: [&str; 12] = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];
    let word = low.contains(MON3[m as usize - 1]);
    for (i, a) in rs.iter().enumerate() {
        if a.v != d as i128 {
            continue;
        }
        for (j, b) in rs.iter().enumerate() {
            if j == i || !names_year(&b.s, y) {
                continue;
            }
            if word || rs.iter().enumerate().any(|(k, c)| k != i && k != j && c.v == m as i128) {
                return true;
            }
        }
    }
    false
}

/// rounds a run of digits after the point to microseconds; both neighbours of a tie
fn micros(s: &str) -> (i64, i64) {
    let f: f64 = format!("0.{}", s).parse().unwrap();
    let x = f * 1e6;
    ((x - 1e-6).round() as i64, (x + 1e-6).round() as i64)
}

fn time_seen(low: &str, rs: &[Run_], us: i64) -> bool {
    let (h, mi, s, f) = (us / 3_600_000_000, us / 60_000_000 % 60, us / 1_000_000 % 60, us % 1_000_000);
    let hour = |v: i128| {
        v == h as i128 || low.contains("pm") && (v + 12 == h as i128) || low.contains("am") && v == 12 && h == 0
    };
    let frac = f == 0
        || rs.iter().any(|r| {
            let (a, b) = micros(&r.s);
            a == f || b == f
        });
    if !frac {
        return false;
    }
    // run-together clock
    for r in rs {
        for w in [4usize, 6] {
            if r.s.len() < w {
                continue;
            }
            let t = &r.s[r.s.len() - w..];
            let n = |i: usize| t[i..i + 2].parse::<i128>().unwrap();
            if hour(n(0)) && n(2) == mi as i128 && (if w == 6 { n(4) == s as i128 } else { s == 0 || rs.iter().any(|q| q.v == s as i128) }) {
                return true;
            }
            // hhmmss may lack a leading zero, mmss the hour
            if w == 4 && h == 0 && n(0) == mi as i128 && n(2) == s as i128 {
                return true;
            }
        }
    }
    let any = |v: i64| v == 0 || rs.iter().any(|r| r.v == v as i128);
    (h == 0 || h == 12 && low.contains("pm") || rs.iter().any(|r| hour(r.v))) && any(mi) && any(s)
}

const MONTHS: [&str; 12] = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"];

/// every run of digits and every word must have gone into the value
fn all_used(low: &str, rs: &[Run_], day: Option<i64>, us: i64) -> Result<(), String> {
    let (h, mi, s, f) = (us / 3_600_000_000, us / 60_000_000 % 60, us / 1_000_000 % 60, us % 1_000_000);
    let pm = low.contains("pm");
    let am = low.contains("am");
    let hour = |v: i128| v == h as i128 || pm && v + 12 == h as i128 || am && v == 12 && h == 0;
    let clock = |t: &str| {
        let v: i128 = match t.parse() {
            Ok(v) => v,
            Err(_) => return false,
        };
        match t.len() {
            1 | 2 => hour(v) || v == mi as i128 || v == s as i128,
            3 | 4 => hour(v / 100) && v % 100 == mi as i128 || h == 0 && v / 100 == mi as i128 && v % 100 == s as i128,
            5 | 6 => hour(v / 10000) && v / 100 % 100 == mi as i128 && v % 100 == s as i128,
            _ => false,
        }
    };
    let date = |t: &str| {
        let day = match day {
            Some(d) => d,
            // a time of day takes no notice of a date
            None => return true,
        };
        let (y, m, d) = civil(day);
        let v: i128 = match t.parse() {
            Ok(v) => v,
            Err(_) => return false,
        };
        let n = t.len();
        names_year(t, y)
            || n <= 3 && (v == m as i128 || v == d as i128)
            || v == doy(day) as i128
            || low.contains('j') && v == (day + 2_451_545).abs() as i128
            || n >= 5 && (t[n - 4..].parse() == Ok(m * 100 + d) && names_year(&t[..n - 4], y) || t[n - 3..].parse() == Ok(doy(day)) && names_year(&t[..n - 3], y))
    };
    for w in low.split(|c: char| !c.is_ascii_alphabetic()) {
        let fits = match w {
            "am" => h < 12,
            "pm" => h >= 12,
            // an era beside a Julian day is ignored, as in PostgreSQL
            "bc" | "ad" if low.contains('j') && !low.contains("jan") && !low.contains("ju") || low.contains("julian") => true,
            "bc" => day.map_or(true, |d| civil(d).0 <= 0),
            "ad" => day.map_or(true, |d| civil(d).0 > 0),
            _ => match (MONTHS.iter().position(|m| w.len() >= 3 && m.starts_with(w)), day) {
                (Some(i), Some(d)) => civil(d).1 == i as i64 + 1,
                _ => true,
            },
        };
        if !fits {
            return Err(format!("the word {} does not fit", w));
        }
    }
    for r in rs {
        let n = r.s.len();
        let z = r.s.trim_start_matches('0');
        let (a, b) = micros(&r.s);
        let fraction = r.frac && (a == f || b == f);
        let small = z.len() <= 2 && n > 2 && (clock(if z.is_empty() { "0" } else { z }) || date(if z.is_empty() { "0" } else { z }));
        let both = [4usize, 6].iter().any(|&w| n > w + 4 && date(&r.s[..n - w]) && clock(&r.s[n - w..]));
        if !(fraction || small || both || clock(&r.s) || date(&r.s)) {
            return Err(format!("the number {} has no part in it", r.s));
        }
    }
    Ok(())
}

/// short texts out of the pieces that dates and times are made of
fn pieces(r: &mut Rng, or: Or) -> String {
    let (y, m, d) = civil(gen::day(r));
    let yy = if r.chance(2, 3) { r.range(1900, 2100) } else { y.abs() };
    let n = r.range(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        let t = match r.below(22) {
            0 | 1 => format!("{}", r.range(1, 31)),
            2 => format!("{:02}", r.range(0, 99)),
            3 | 4 => format!("{:04}", yy),
            5 => format!("{}", month_word(r, m)),
            6 => format!("{:02}:{:02}:{:02}", r.range(0, 24), r.range(0, 59), r.range(0, 60)),
            7 => format!("{:02}:{:02}", r.range(0, 24), r.range(0, 60)),
            8 => format!("{:02}:{:02}:{:02}.{}", r.range(0, 23), r.range(0, 59), r.range(0, 59), r.range(0, 999_999)),
            9 => r.pick(&["am", "pm", "AD", "BC", "AM", "PM"]).to_string(),
            10 => r.pick(&["t", "T", "y", "m", "d", "h", "mm", "s", "j", "Y", "M", "D", "H", "MM", "S", "J", "on", "at"]).to_string(),
            11 => format!("{}{}{}", r.pick(&["y", "m", "d", "h", "mm", "s", "j", "t", "jd", "dow", "doy"]), r.pick(&["", " "]), r.range(0, 60)),
            12 => format!("{}{}{}{}{}", yy, r.pick(&["-", "/", "."]), m, r.pick(&["-", "/", "."]), d),
            13 => {
                let p = r.pick(&["-", "/", "."]);
                format!("{:02}{}{:02}{}{:02}", r.range(1, 31), p, r.range(1, 31), p, r.range(0, 99))
            }
            14 => format!("{:04}{:02}{:02}", yy, r.range(0, 13), r.range(0, 32)),
            15 => format!("{:02}{:02}{:02}", r.range(0, 99), r.range(0, 24), r.range(0, 60)),
            16 => format!("{:03}", r.range(0, 367)),
            17 => format!("{}{}{:03}", yy, r.pick(&["-", ".", "/", " "]), r.range(1, 366)),
            18 => {
                let n = gen::day(r);
                weekday_word(r, n)
            }
            19 => format!("{}{}{}", r.range(0, 9999), r.pick(&["-", "/", ".", ":"]), r.range(0, 9999)),
            20 => {
                let kind = r.below(DATE_KINDS as u64) as usize;
                let (y, m, d) = civil(gen::day(r));
                date_form(r, y, m, d, or, kind).map(|f| plain(&f.pieces)).unwrap_or_default()
            }
            _ => {
                let c = clock_rand(r);
                let k = r.below(TIME_KINDS as u64) as usize;
                time_form(r, c, k).map(|f| plain(&f.pieces)).unwrap_or_default()
            }
        };
        if !s.is_empty() {
            s.push_str(r.pick::<&str>(&[" ", " ", " ", " ", "", "", "-", "/", ".", ","]));
        }
        s.push_str(&t);
    }
    if r.chance(1, 8) && !s.is_empty() {
        // one character more or less
        let at = r.below(s.len() as u64) as usize;
        if s.is_char_boundary(at) {
            if r.chance(1, 2) {
                s.remove(at);
            } else {
                s.insert(at, *r.pick(&['0', '1', '9', ' ', '.', '-', ':', 't', 'y']));
            }
        }
    }
    s
}

pub fn shards(run: &mut Run, label: u64, n: u64) {
    let known = super::order::known_findings("P10").iter().any(|k| k.contains("0002-11-30 BC"));
    run.shards(label, n, |sh, r, _| {
        let or = *r.pick(&ORDERS);
        let text = pieces(r, or);
        let low = text.to_ascii_lowercase();
        let rs = runs(&text);
        // text that may carry into the next day on its own
        let carries = rs.iter().any(|q| q.s.contains("24") || q.s.contains("60") || q.s.len() > 6 && q.frac);
        let julian_fraction = low.contains('j') && low.contains('.');
        let key = hash_str(&text);
        let odd = day_of(-1, 11, 30);
        let near = |day: i64, t: &str, rs: &[Run_]| date_seen(t, rs, day) || carries && date_seen(t, rs, day - 1);
        // day 366 of a common year rolls over
        let rolls = |day: i64| doy(day) == 1 && rs.iter().any(|q| q.s.ends_with("366") && (q.s.len() > 4 && names_year(&q.s[..q.s.len() - 3], civil(day).0 - 1) || rs.iter().any(|p| names_year(&p.s, civil(day).0 - 1))));
        if let Ok(Ok(day)) = guarded(|| parse_d(&text, or)) {
            if d_ok(day) && !(known && day == odd) {
                sh.check("accepted date, every field witnessed", key, || format!("date {:?} {:?}", text, or), || {
                    if near(day, &low, &rs) || rolls(day) {
                        Ok(())
                    } else {
                        Err(format!("accepted as {}, which the text does not name", show_d(day)))
                    }
                });
            }
        }
        if let Ok(Ok(v)) = guarded(|| parse_t(&text, -1, or)) {
            let (day, us) = split(v);
            if t_ok(v as i128) && !(known && (day == odd || carries && day == odd + 1)) && !julian_fraction {
                sh.check("accepted timestamp, every field witnessed", key, || format!("timestamp {:?} {:?}", text, or), || {
                    if (near(day, &low, &rs) || rolls(day)) && (time_seen(&low, &rs, us) || carries) {
                        if carries || rolls(day) {
                            return Ok(());
                        }
                        all_used(&low, &rs, Some(day), us).map_err(|e| format!("accepted as {}: {}", show_t(v), e))
                    } else {
                        Err(format!("accepted as {}, which the text does not name", show_t(v)))
                    }
                });
            }
        }
        if let Ok(Ok(us)) = guarded(|| parse_tm(&text, -1, or)) {
            if !julian_fraction {
                sh.check("accepted time, every field witnessed", key, || format!("time {:?} {:?}", text, or), || {
                    if time_seen(&low, &rs, us) || carries {
                        Ok(())
                    } else {
                        Err(format!("accepted as {} us, which the text does not name", us))
                    }
                });
            }
        }
    });
}
