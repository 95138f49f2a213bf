//! Text for parsers: well-formed, damaged, hostile.

use crate::core::*;
use crate::gen;
use crate::ispell;
use crate::model::*;
use crate::props::text2::{KNOWN_WORDS};
use crate::spell::*;

/// a text of one of the grammars, mostly accepted
pub fn good(r: &mut Rng, or: Or) -> String {
    match r.below(10) {
        0..=2 => {
            let (y, m, d) = civil(gen::day(r));
            let kind = r.below(DATE_KINDS as u64) as usize;
            let time = if r.chance(1, 2) { Some((clock_rand(r), r.below(TIME_KINDS as u64) as usize)) } else { None };
            match spell(r, y, m, d, or, kind, time) {
                Some(s) => plain(&s.pieces),
                None => format!("{:04}-{:02}-{:02}", y.abs(), m, d),
            }
        }
        3 => {
            let tk = r.below(TIME_KINDS as u64) as usize;
            let c = clock_rand(r);
            time_form(r, c, tk).map(|t| plain(&t.pieces)).unwrap_or_default()
        }
        4 | 5 => {
            let big = r.chance(1, 3);
            plain(&ispell::traditional(r, &ispell::FULL, big).pieces)
        }
        6 => {
            let big = r.chance(1, 3);
            ispell::iso(r, big).0
        }
        7 => {
            let v = gen::iv_printable_gen(r);
            print_iv(v, *r.pick(&ISTYLES))
        }
        8 => print_ts(gen::ts(r), *r.pick(&STYLES), *r.pick(&ORDERS)),
        _ => print_date(gen::day(r), *r.pick(&STYLES), *r.pick(&ORDERS)),
    }
}

const BITS: &[&str] = &[
    " ", "  ", "\t", "\n", "-", "--", "+", ":", ".", "/", ",", "T", "t", "P", "p", "W", "J", "D", "M", "Y", "H", "S", "BC", "AD", "ago", "AM", "PM", "infinity", "-infinity", "epoch", "now", "today", "e", "E", "_",
    "@", "0", "00", "000", "1", "9", "99", "999999999", "2147483647", "2147483648", "-2147483648", "9223372036854775807", "9223372036854775808", "1e10", "NaN", "inf", "\u{e9}", "\0", "\u{4e2d}", "\u{1f4c5}",
    "\u{130}", "\u{212a}", "\u{17f}", "Z", "UTC", "+00", "-99:99", "America/New_York", "isodow", "julian", "jd", "allballs", "dst", "zp4", "timezone_h", "microsecon", "microseconds", "millisecon", "millennium", ".5", "5.",
];

fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{}", r.range(0, 31)),
        1 => format!("{:04}", r.range(0, 9999)),
        2 => format!("{}", gen::i32_any(r)),
        3 => format!("{}", gen::i64_any(r)),
        4 => {
            let n = r.range(1, 40);
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        }
        5 => format!("{:.*}", r.below(12) as usize, gen::f64_any(r)).chars().take(60).collect(),
        6 => format!("{}.{}", r.range(-40, 40), r.range(0, 9_999_999)),
        _ => format!("{}{}", r.pick(&["", "0", "000000", "-", "+", "-0"]), r.range(0, 3000)),
    }
}

/// damages a text
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = c.len() as u64;
        let at = r.below(n + 1) as usize;
        match r.below(9) {
            0 if n > 0 => {
                c.remove(at.min(c.len() - 1));
            }
            1 if n > 0 => {
                let x = c[at.min(c.len() - 1)];
                c.insert(at, x);
            }
            2 if n > 1 => {
                let k = r.below(n - 1) as usize;
                c.swap(k, k + 1);
            }
            3 if n > 0 => c.truncate(at),
            4 if n > 0 => {
                let k = at.min(c.len() - 1);
                c[k] = (b' ' + r.below(95) as u8) as char;
            }
            5 => {
                for (j, x) in number(r).chars().enumerate() {
                    c.insert(at + j, x);
                }
            }
            6 if n > 1 => {
                // repeat a slice
                let k = r.below(n) as usize;
                let l = r.below((n - k as u64).min(12)) as usize;
                let part: Vec<char> = c[k..k + l].to_vec();
                for (j, x) in part.into_iter().enumerate() {
                    c.insert(at + j, x);
                }
            }
            7 => {
                for (j, x) in r.pick(KNOWN_WORDS).chars().enumerate() {
                    c.insert(at + j, x);
                }
            }
            _ => {
                for (j, x) in r.pick::<&str>(BITS).chars().enumerate() {
                    c.insert(at + j, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// sizes around the limits of the field list and the work buffer
pub fn limits(r: &mut Rng) -> String {
    match r.below(7) {
        0 => {
            // 22..28 fields
            let n = r.range(22, 28);
            (0..n).map(|_| *r.pick(&["1", "a", "+1", "1:1", "-x", "1-1", "."])).collect::<Vec<_>>().join(" ")
        }
        1 => {
            // one field of 120..136 bytes
            let n = r.range(100, 140) as usize;
            let c = *r.pick(&["1", "a", "1:", "1-", "1.", "a-", "a1", "+1", "Z", "1/"]);
            c.repeat(n).chars().take(n).collect()
        }
        2 => {
            // fields that add up to 120..136 bytes
            let mut s = String::new();
            while s.len() < 118 {
                s.push_str(r.pick::<&str>(KNOWN_WORDS));
                s.push(' ');
                if r.chance(1, 3) {
                    s.push_str(&format!("{} ", r.range(0, 99_999)));
                }
            }
            let n = r.range(0, 14) as usize;
            s.push_str(&"7".repeat(n));
            s
        }
        3 => {
            let g = good(r, Or::Ymd);
            let n = r.range(90, 140) as usize;
            format!("{}{}{}", g, r.pick(&[" ", ""]), r.pick(&["0", "1", "x", " ", ":", "-", "."]).repeat(n))
        }
        4 => {
            let n = r.range(1, 60) as usize;
            format!("{}:{}:{}.{}", "9".repeat(r.below(12) as usize), "5".repeat(r.below(12) as usize), "1".repeat(r.below(12) as usize), "9".repeat(n))
        }
        5 => {
            let n = r.range(200, 5000) as usize;
            r.pick::<&str>(BITS).repeat(n)
        }
        _ => {
            let n = r.range(1, 40) as usize;
            format!("P{}{}T{}{}", "9".repeat(n % 13), r.pick(&["Y", "M", "D", "W", "", "-", "/"]), "9".repeat(n % 17), r.pick(&["H", "M", "S", "", ":", ".5"]))
        }
    }
}

fn any_bytes(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(0, 4),
        1 => r.range(0, 20),
        2 => r.range(0, 140),
        _ => r.range(0, 40),
    };
    match r.below(3) {
        0 => (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        1 => (0..n).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('\u{fffd}')).collect(),
        _ => {
            let b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
    }
}

fn tokens(r: &mut Rng) -> String {
    let n = r.range(1, 9);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(4) {
            0 => s.push_str(r.pick::<&str>(KNOWN_WORDS)),
            1 => s.push_str(&number(r)),
            2 => s.push_str(r.pick::<&str>(BITS)),
            _ => s.push_str(&format!("{:02}{}{:02}", r.range(0, 99), r.pick(&[":", "-", "/", "."]), r.range(0, 99))),
        }
        if r.chance(1, 2) {
            s.push_str(r.pick::<&str>(&[" ", " ", " ", ",", "-", "/", ":", "."]));
        }
    }
    s
}

pub fn text_class(r: &mut Rng, or: Or) -> (String, &'static str) {
    match r.below(12) {
        0 | 1 => (good(r, or), "well-formed"),
        2..=5 => {
            let g = good(r, or);
            (mutate(r, &g), "damaged")
        }
        6 => {
            let (a, b) = (good(r, or), good(r, or));
            let mut i = r.below(a.len() as u64 + 1) as usize;
            while !a.is_char_boundary(i) {
                i -= 1;
            }
            let mut j = r.below(b.len() as u64 + 1) as usize;
            while !b.is_char_boundary(j) {
                j -= 1;
            }
            (format!("{}{}", &a[..i], &b[j..]), "spliced")
        }
        7 => (limits(r), "at the size limits"),
        8 => (any_bytes(r), "arbitrary characters"),
        9 | 10 => (tokens(r), "token soup"),
        _ => {
            let t = tokens(r);
            (mutate(r, &t), "damaged token soup")
        }
    }
}

pub fn text(r: &mut Rng, or: Or) -> String {
    text_class(r, or).0
}
