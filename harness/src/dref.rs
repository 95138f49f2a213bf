//! A reference reader of date, timestamp and time-of-day text, written from
//! the documented grammar: it says of any text whether it is accepted, and
//! which day and time it then means. Fields are read left to right; what was
//! read so far is a set of bits, and nothing may be given twice.

use crate::core::*;
use crate::lexref::*;
use crate::model::*;
use crate::props::text::*;
use crate::props::{show_d, show_t};
use crate::soup;

#[derive(Debug, PartialEq)]
pub enum Dt {
    No(&'static str),
    /// rounding in binary or a known finding decides
    Unsure,
    /// minus or plus infinity
    Inf(bool),
    /// day number, microseconds, and how far the latter may be off
    At(i64, i64, i64),
}

const Y: u32 = 1;
const M: u32 = 2;
const D: u32 = 4;
const DOY: u32 = 8;
const H: u32 = 16;
const MI: u32 = 32;
const S: u32 = 64;
const FR: u32 = 128;
const APM: u32 = 256;
const ERA: u32 = 512;
const DOW: u32 = 1024;
const INF: u32 = 2048;
const ZONE: u32 = 4096;
const DATE: u32 = Y | M | D;
const TIME: u32 = H | MI | S | FR;

type R<T> = Result<T, &'static str>;

#[derive(Default)]
struct Tm {
    y: i64,
    m: i64,
    d: i64,
    doy: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
    /// day number of a Julian day
    julian: Option<i64>,
    short: bool,
    bc: bool,
    pm: Option<bool>,
    named: bool,
    inf: Option<bool>,
    fuzz: i64,
    unsure: bool,
    have: u32,
}

impl Tm {
    fn got(&mut self, bits: u32) -> R<()> {
        if self.have & bits != 0 {
            return Err("given twice");
        }
        self.have |= bits;
        Ok(())
    }
    /// digits after the point of a second
    fn fraction(&mut self, f: &str) -> R<i64> {
        if f.len() > 7 {
            return Err("over-long fraction");
        }
        if f.is_empty() {
            return Ok(0);
        }
        let v: i64 = f.parse().map_err(|_| "fraction")?;
        if f.len() == 7 {
            self.unsure |= v % 10 == 5;
            return Ok((v + 5) / 10);
        }
        Ok(v * 10i64.pow(6 - f.len() as u32))
    }
    fn clock(&mut self, body: &str) -> R<()> {
        let (h, m, s, f) = clock_parts(body, false)?;
        let us = self.fraction(f)?;
        (self.h, self.mi, self.s, self.us) = (h, m, s, us);
        self.got(TIME)
    }
    /// hhmmss or hhmm, with a fraction
    fn compact_time(&mut self, s: &str) -> R<()> {
        if self.have & TIME == TIME {
            return Err("a number too many");
        }
        let (w, f) = match s.find('.') {
            Some(k) => (&s[..k], &s[k + 1..]),
            None => (s, ""),
        };
        if w.len() != 6 && w.len() != 4 {
            return Err("a number of no field");
        }
        let two = |i: usize| w[i..i + 2].parse::<i64>().unwrap();
        self.us = self.fraction(f)?;
        (self.h, self.mi, self.s) = (two(0), two(2), if w.len() == 6 { two(4) } else { 0 });
        self.got(TIME)
    }
    /// one number of a date: which part it is depends on what is there
    fn part(&mut self, s: &str, named: bool, or: Or, have: u32) -> R<u32> {
        let v = int32(s, false).ok_or("number beyond 32 bits")?;
        let long = s.len() >= 3;
        if s.len() == 3 && have & DATE == Y && (1..=366).contains(&v) {
            self.doy = v;
            return Ok(DOY | M | D);
        }
        let bit = match have & DATE {
            0 => {
                if long || or == Or::Ymd {
                    Y
                } else if or == Or::Dmy {
                    D
                } else {
                    M
                }
            }
            Y => M,
            M if named && (long || or == Or::Ymd) => Y,
            M => D,
            x if x == Y | M => {
                if named && long && self.short {
                    // the first number was the day
                    self.d = self.y;
                    self.y = v;
                    self.short = false;
                    return Ok(D);
                }
                D
            }
            D => M,
            x if x == M | D => Y,
            _ => return Err("parts of a date in no order"),
        };
        match bit {
            Y => {
                self.y = v;
                self.short = s.len() <= 2;
            }
            M => self.m = v,
            _ => self.d = v,
        }
        Ok(bit)
    }
    /// a date with delimiters
    fn delimited(&mut self, body: &str, or: Or) -> R<()> {
        if body.ends_with(|c: char| !c.is_ascii_alphanumeric()) {
            return Err("a date that ends in a delimiter");
        }
        let mut parts: Vec<&str> = vec![];
        let b = body.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let j = (i..b.len()).find(|&j| b[j].is_ascii_digit() != b[i].is_ascii_digit() || b[j].is_ascii_alphabetic() != b[i].is_ascii_alphabetic()).unwrap_or(b.len());
            if b[i].is_ascii_alphanumeric() {
                parts.push(&body[i..j]);
            }
            i = j;
        }
        if parts.len() > 25 {
            return Err("too many parts");
        }
        let mut have = self.have;
        let mut named = false;
        let alpha = |p: &&str| p.as_bytes()[0].is_ascii_alphabetic();
        for p in parts.iter().filter(|p| alpha(p)) {
            self.m = month(p).ok_or("a word in a date that is no month")?;
            named = true;
            if have & M != 0 {
                return Err("given twice");
            }
            have |= M;
        }
        for p in parts.iter().filter(|p| !alpha(p)) {
            if have & DATE == DATE {
                return Err("too many parts");
            }
            let bits = self.part(p, named, or, have)?;
            if have & bits != 0 {
                return Err("given twice");
            }
            have |= bits;
        }
        if have & !DOY != DATE {
            return Err("not a whole date, or something before it");
        }
        self.have = have;
        Ok(())
    }
    fn label(&mut self, l: char, body: &str, datetime: bool) -> R<()> {
        let (w, f) = match body.find('.') {
            Some(k) if matches!(l, 'j' | 't' | 's') => (&body[..k], Some(&body[k + 1..])),
            Some(_) => return Err("a fraction of this unit"),
            None => (body, None),
        };
        let v = int32(w, false).ok_or("number beyond 32 bits")?;
        let _ = datetime;
        match l {
            'y' => {
                self.y = v;
                self.got(Y)
            }
            'm' if self.have & M != 0 && self.have & H != 0 => {
                self.mi = v;
                self.got(MI)
            }
            'm' => {
                self.m = v;
                self.got(M)
            }
            'd' => {
                self.d = v;
                self.got(D)
            }
            'h' => {
                self.h = v;
                self.got(H)
            }
            'n' => {
                self.mi = v;
                self.got(MI)
            }
            's' => {
                self.s = v;
                match f {
                    Some(f) => {
                        self.us = self.fraction(f)?;
                        self.got(S | FR)
                    }
                    None => self.got(S),
                }
            }
            'j' => {
                self.julian = Some(v - 2_451_545);
                let mut bits = DATE;
                if let Some(f) = f {
                    if f.len() > 7 {
                        return Err("over-long fraction");
                    }
                    let t = if f.is_empty() { 0 } else { f.parse::<i64>().unwrap() * (DAY / 10i64.pow(f.len() as u32)) };
                    (self.h, self.mi, self.s, self.us) = (t / HOUR, t / MINUTE % 60, t / SEC % 60, t % SEC);
                    self.fuzz = 1;
                    bits |= TIME;
                }
                self.got(bits)
            }
            't' => self.compact_time(body),
            _ => Err("a label of no number"),
        }
    }
    /// the day, once every field is read
    fn day(&mut self) -> R<Option<i64>> {
        if self.have & Y != 0 && self.julian.is_none() {
            if self.bc || !self.short {
                if self.y <= 0 {
                    return Err("year zero");
                }
                if self.bc {
                    self.y = 1 - self.y;
                }
            } else {
                self.y += if self.y < 70 { 2000 } else if self.y < 100 { 1900 } else { 0 };
            }
        }
        if let Some(n) = self.julian {
            return Ok(Some(n));
        }
        if self.have & DOY != 0 {
            let n = day_of(self.y, 1, 1) + self.doy - 1;
            return if d_ok(n) { Ok(Some(n)) } else { Err("out of range") };
        }
        if self.have & M != 0 && !(1..=12).contains(&self.m) {
            return Err("month out of range");
        }
        if self.have & D != 0 && !(1..=31).contains(&self.d) {
            return Err("day out of range");
        }
        if self.have & DATE == DATE {
            if self.d > mdays(self.y, self.m) {
                return Err("day beyond the month");
            }
            return Ok(Some(day_of(self.y, self.m, self.d)));
        }
        Ok(None)
    }
    fn of_day(&mut self) -> R<i64> {
        if let Some(pm) = self.pm {
            if self.have & H == 0 {
                return Err("AM or PM alone");
            }
            if self.h > 12 {
                return Err("AM or PM of a 24-hour clock");
            }
            self.h = self.h % 12 + if pm { 12 } else { 0 };
        }
        if self.h > 24 || self.mi > 59 || self.s > 60 || (self.h == 24 && (self.mi, self.s, self.us) != (0, 0, 0)) {
            return Err("time out of range");
        }
        Ok(self.h * HOUR + self.mi * MINUTE + self.s * SEC + self.us)
    }
}

fn month(w: &str) -> Option<i64> {
    if w == "sept" {
        return Some(9);
    }
    (1..=12).find(|&m| MONTHS[m - 1].eq_ignore_ascii_case(w) || MON[m - 1].eq_ignore_ascii_case(w)).map(|m| m as i64)
}

fn weekday(w: &str) -> bool {
    ["tues", "weds", "thur", "thurs"].contains(&w) || WDAY.iter().chain(WDAYS.iter()).any(|x| x.eq_ignore_ascii_case(w))
}

/// whole text of a date or timestamp (`time_only` false) or of a time of day
fn fields(text: &str, or: Or, time_only: bool) -> R<Tm> {
    if text.is_empty() {
        return Err("empty");
    }
    let toks = lex(text)?;
    let mut tm = Tm::default();
    let mut label: Option<char> = None;
    for (i, t) in toks.iter().enumerate() {
        match t.kind {
            Kind::SignedNumber => return Err("a signed number"),
            Kind::Clock => {
                if !matches!(label, None | Some('t')) {
                    return Err("a label without a number");
                }
                label = None;
                tm.clock(&t.body)?;
                if tm.h > 24 {
                    return Err("time out of range");
                }
            }
            Kind::Date if time_only => {
                if i != 0 || toks.len() < 2 || toks[1].kind != Kind::Clock {
                    return Err("a date where none may be");
                }
                tm.delimited(&t.body, or)?;
            }
            Kind::Date => {
                if label.is_some() || tm.have & (M | D) == M | D {
                    return Err("a date where none may be");
                }
                tm.delimited(&t.body, or)?;
            }
            Kind::Number => {
                if let Some(l) = label.take() {
                    tm.label(l, &t.body, !time_only)?;
                    continue;
                }
                let point = t.body.find('.');
                if time_only {
                    match point {
                        Some(k) if k <= 2 => return Err("a fraction of no field"),
                        _ => tm.compact_time(&t.body)?,
                    }
                } else if point.is_some() && tm.have & DATE == 0 && t.body.len() <= 14 {
                    tm.delimited(&t.body, or)?;
                } else if point.is_some_and(|k| k > 2) {
                    tm.compact_time(&t.body)?;
                } else if point.is_some() {
                    return Err("a fraction of no field");
                } else if t.body.len() >= 6 && (tm.have & DATE == 0 || tm.have & TIME == 0) {
                    if tm.have & DATE == DATE {
                        tm.compact_time(&t.body)?;
                    } else {
                        let n = t.body.len();
                        tm.y = int32(&t.body[..n - 4], false).ok_or("number beyond 32 bits")?;
                        tm.m = t.body[n - 4..n - 2].parse().unwrap();
                        tm.d = t.body[n - 2..].parse().unwrap();
                        tm.short |= n == 6;
                        tm.got(DATE)?;
                    }
                } else if tm.have & DATE == DATE {
                    int32(&t.body, false).ok_or("number beyond 32 bits")?;
                    tm.compact_time(&t.body)?;
                } else {
                    let (named, have) = (tm.named, tm.have);
                    let bits = tm.part(&t.body, named, or, have)?;
                    tm.got(bits)?;
                }
            }
            Kind::SignedWord => {
                if time_only || t.sign != Some(true) || t.body != "infinity" {
                    return Err("a signed word");
                }
                tm.inf = Some(true);
                tm.got(INF)?;
            }
            Kind::Word => {
                let w = t.body.as_str();
                if let Some(m) = month(w) {
                    if time_only {
                        return Err("a month in a time");
                    }
                    let swap = tm.have & M != 0 && !tm.named && tm.have & D == 0 && (1..=31).contains(&tm.m);
                    if swap {
                        tm.d = tm.m;
                    }
                    tm.named = true;
                    tm.m = m;
                    tm.got(if swap { D } else { M })?;
                    continue;
                }
                if weekday(w) {
                    if time_only {
                        return Err("a weekday in a time");
                    }
                    tm.got(DOW)?;
                    continue;
                }
                match w {
                    "at" | "on" => {}
                    "am" | "pm" => {
                        tm.pm = Some(w == "pm");
                        tm.got(APM)?;
                    }
                    "ad" | "bc" => {
                        tm.bc = w == "bc";
                        tm.got(ERA)?;
                    }
                    "infinity" if !time_only => {
                        tm.inf = Some(false);
                        tm.got(INF)?;
                    }
                    "allballs" => {
                        (tm.h, tm.mi, tm.s) = (0, 0, 0);
                        tm.got(TIME | ZONE)?;
                    }
                    "y" | "m" | "mm" | "d" | "h" | "s" | "j" | "jd" | "julian" | "dow" | "doy" | "isodow" | "t" => {
                        if label.is_some() {
                            return Err("a label without a number");
                        }
                        if w == "t" {
                            if !time_only && tm.have & DATE != DATE {
                                return Err("t without a date");
                            }
                            if !matches!(toks.get(i + 1).map(|t| t.kind), Some(Kind::Number | Kind::Clock)) {
                                return Err("t without a time");
                            }
                        }
                        label = Some(match w {
                            "mm" => 'n',
                            "j" | "jd" | "julian" => 'j',
                            "dow" | "doy" | "isodow" => 'x',
                            w => w.chars().next().unwrap(),
                        });
                    }
                    _ => return Err("a word of no meaning"),
                }
            }
        }
    }
    if label.is_some() {
        return Err("a label without a number");
    }
    Ok(tm)
}

/// as the text of a timestamp
pub fn datetime(text: &str, or: Or) -> Dt {
    let go = || -> R<Dt> {
        let mut tm = fields(text, or, false)?;
        if let Some(neg) = tm.inf {
            return if tm.have == INF { Ok(Dt::Inf(neg)) } else { Err("infinity with something") };
        }
        let day = tm.day()?;
        let t = tm.of_day()?;
        if tm.unsure {
            return Ok(Dt::Unsure);
        }
        match day {
            // a known finding
            None if tm.have & TIME == TIME && tm.have & DATE == 0 => Ok(Dt::Unsure),
            None => Err("not a whole date"),
            Some(n) => Ok(Dt::At(n, t, tm.fuzz)),
        }
    };
    go().unwrap_or_else(Dt::No)
}

/// as the text of a time of day
pub fn time(text: &str, or: Or) -> Dt {
    let go = || -> R<Dt> {
        let mut tm = fields(text, or, true)?;
        let day = tm.day()?;
        let t = tm.of_day()?;
        if tm.unsure {
            return Ok(Dt::Unsure);
        }
        if tm.have & (H | MI | S) != H | MI | S {
            return Err("not a whole time");
        }
        if day.is_none() && tm.have & DATE != 0 {
            return Err("part of a date");
        }
        if t > DAY {
            return Err("time out of range");
        }
        Ok(Dt::At(0, t, tm.fuzz))
    };
    go().unwrap_or_else(Dt::No)
}

/// date-like and time-like text: the pieces of the grammar in any order and glue
pub fn text(r: &mut Rng, or: Or) -> (String, &'static str) {
    match r.below(8) {
        0 | 1 => soup::text_class(r, or),
        2 | 3 => {
            // pieces that mostly fit together
            let mut s = String::new();
            for k in 0..r.range(1, 6) {
                if k > 0 {
                    s.push_str(r.pick::<&str>(&[" ", " ", " ", " ", "", ",", "T", " t ", "-", ".", "/"]));
                }
                s.push_str(&piece(r));
            }
            (s, "pieces of a date and time")
        }
        4 => {
            let mut s = String::new();
            let d = *r.pick(&["-", "/", ".", "-", "--", "_"]);
            for k in 0..r.range(2, 4) {
                if k > 0 {
                    s.push_str(if r.chance(9, 10) { d } else { "-" });
                }
                s.push_str(&small(r));
            }
            if r.chance(1, 2) {
                s.push_str(r.pick::<&str>(&[" ", " ", "T", "t", ""]));
                s.push_str(&clock_text(r));
            }
            if r.chance(1, 4) {
                s.push(' ');
                s.push_str(&piece(r));
            }
            (s, "delimited parts and a clock")
        }
        5 => {
            // labels
            let mut s = String::new();
            for _ in 0..r.range(1, 7) {
                s.push_str(r.pick::<&str>(&["y", "m", "d", "h", "mm", "s", "j", "jd", "julian", "t", "dow", "Y", "M", "D", "H", "S"]));
                s.push_str(r.pick::<&str>(&[" ", "", ""]));
                if r.chance(9, 10) {
                    s.push_str(&if r.chance(1, 2) { small(r) } else { format!("{}", r.range(0, 2_500_000)) });
                }
                if r.chance(1, 4) {
                    s.push_str(&format!(".{}", r.range(0, 999_999)));
                }
                s.push_str(r.pick::<&str>(&[" ", "", " "]));
            }
            if r.chance(1, 3) {
                s.push_str(&clock_text(r));
            }
            (s, "labelled numbers")
        }
        6 => {
            // a date that is right, and something beside it
            let (y, m, d) = civil(crate::gen::day(r));
            let kind = r.below(crate::spell::DATE_KINDS as u64) as usize;
            let date = crate::spell::spell(r, y, m, d, or, kind, None).map(|s| crate::spell::plain(&s.pieces)).unwrap_or_else(|| "2022-03-04".into());
            let p = piece(r);
            let q = if r.chance(1, 3) { piece(r) } else { String::new() };
            (if r.chance(1, 2) { format!("{} {} {}", date, p, q) } else { format!("{} {} {}", p, date, q) }, "a date and something beside it")
        }
        _ => {
            let tk = r.below(crate::spell::TIME_KINDS as u64) as usize;
            let c = crate::spell::clock_rand(r);
            let t = crate::spell::time_form(r, c, tk).map(|t| crate::spell::plain(&t.pieces)).unwrap_or_default();
            let p = piece(r);
            (if r.chance(1, 2) { format!("{} {}", t, p) } else { format!("{} {}", p, t) }, "a time and something beside it")
        }
    }
}

fn small(r: &mut Rng) -> String {
    match r.below(9) {
        0..=2 => format!("{}", r.range(0, 33)),
        3 => format!("{:02}", r.range(0, 33)),
        4 => format!("{}", r.range(1900, 2100)),
        5 => format!("{:03}", r.range(0, 400)),
        6 => r.pick::<&str>(&MON).to_lowercase(),
        7 => r.pick::<&str>(&MONTHS).to_string(),
        _ => format!("{:0w$}", r.range(0, 99_999), w = r.range(1, 6) as usize),
    }
}

fn clock_text(r: &mut Rng) -> String {
    let two = |r: &mut Rng, top: i64| if r.chance(1, 15) { String::new() } else { format!("{:02}", r.range(0, top)) };
    let mut s = format!("{}:{}", two(r, 25), two(r, 60));
    if s.starts_with(':') {
        s.insert(0, '0');
    }
    if r.chance(2, 3) {
        s = format!("{}:{}", s, two(r, 61));
    }
    if r.chance(1, 3) {
        s.push('.');
        s.extend((0..r.range(0, 8)).map(|_| (b'0' + r.below(10) as u8) as char));
    }
    s
}

fn piece(r: &mut Rng) -> String {
    match r.below(16) {
        0 | 1 => small(r),
        2 => format!("{}{}{}", r.pick(&["j", "J ", "jd", "julian "]), r.range(0, 3_000_000), r.pick(&["", "", ".5", ".25", ".123456"])),
        3 | 4 => clock_text(r),
        5 => format!("{:0w$}", r.range(0, 999_999), w = r.range(4, 8) as usize),
        6 => format!("{:04}{:02}{:02}", r.range(0, 9999), r.range(0, 13), r.range(0, 32)),
        7 => format!("{:04}-{:02}-{:02}", r.range(0, 2100), r.range(0, 13), r.range(0, 31)),
        8 if r.chance(1, 4) => format!("{}.{:0w$}", r.range(0, 2100), r.range(0, 9_999_999_999), w = r.range(7, 14) as usize),
        8 => format!("{:06}.{}", r.range(0, 240_000), r.range(0, 9_999_999)),
        9 => format!("{}.{:03}", r.range(0, 2100), r.range(0, 367)),
        10 => r.pick::<&str>(&["am", "pm", "AM", "PM", "bc", "AD", "BC", "at", "on", "t", "T"]).to_string(),
        11 => crate::props::text2::unknown_or_known(r),
        12 => format!("{}{}", r.pick(&["y", "m", "d", "h", "mm", "s", "t", "T"]), small(r)),
        13 => r.pick::<&str>(&WDAYS).to_lowercase()[..3].to_string(),
        14 => r.pick::<&str>(&["infinity", "-infinity", "+infinity", "allballs", "epoch", "now", "- infinity", "zulu", "z", "utc", "+08", "-3"]).to_string(),
        _ => format!("{}{}", r.pick::<&str>(&MON), r.range(0, 33)),
    }
}

/// do the parsers under test read the text as the reference does?
pub fn agrees(sh: &mut Shard, r: &mut Rng) {
    let or = *r.pick(&ORDERS);
    let (text, class) = text(r, or);
    let key = hash64(&[hash_str(&text), or as u64]);
    let desc = || format!("{:?} under {:?}", text, or);
    let dt = datetime(&text, or);
    sh.check(class, key, desc, || {
        let (d, t) = (parse_d(&text, or), parse_t(&text, -1, or));
        match dt {
            Dt::Unsure => {}
            Dt::No(why) => {
                if let Ok(n) = d {
                    return Err(format!("date accepted as {}: {}", show_d(n), why));
                }
                if let Ok(n) = t {
                    return Err(format!("timestamp accepted as {}: {}", show_t(n), why));
                }
            }
            Dt::Inf(neg) => {
                let (wd, wt) = if neg { (DNEG as i64, TNEG) } else { (DPOS as i64, TPOS) };
                if d != Ok(wd) || t != Ok(wt) {
                    return Err(format!("date {:?}, timestamp {:?}, expected an infinity", d, t));
                }
            }
            Dt::At(n, us, fuzz) => {
                match d {
                    Ok(g) if g == n && d_ok(n) => {}
                    Err(_) if !d_ok(n) => {}
                    d => return Err(format!("date {:?}, expected day {} ({})", d, n, show_d(n))),
                }
                let want = n as i128 * DAY as i128 + us as i128;
                let near = |x: i128| t_ok(x);
                match t {
                    Ok(g) if (g as i128 - want).abs() <= fuzz as i128 && t_ok(g as i128) => {}
                    Err(_) if !near(want) || !near(want - fuzz as i128) || !near(want + fuzz as i128) => {}
                    t => return Err(format!("timestamp {:?}, expected {}", t, want)),
                }
            }
        }
        Ok(())
    });
    match dt {
        Dt::No(why) => sh.observe(why),
        Dt::At(..) => sh.observe("a date, by the reference reader"),
        _ => {}
    }
    let tm = time(&text, or);
    sh.check("as a time of day", key, desc, || match (parse_tm(&text, -1, or), &tm) {
        (_, Dt::Unsure) => Ok(()),
        (Err(_), Dt::No(_)) => Ok(()),
        (Ok(g), Dt::At(_, us, fuzz)) if (g - us).abs() <= *fuzz => Ok(()),
        (Ok(g), w) => Err(format!("time accepted as {} us, expected {:?}", g, w)),
        (Err(e), w) => Err(format!("time rejected ({}), expected {:?}", e, w)),
    });
    if let Dt::At(..) = tm {
        sh.observe("a time of day, by the reference reader");
    }
}
