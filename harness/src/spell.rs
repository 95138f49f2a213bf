//! Spelling dates and times: from calendar fields to text, in every notation
//! the library documents. The fields go in, the text comes out; what the text
//! means is known before the code under test sees it. Fields may be out of
//! range on purpose (P10).

use crate::core::Rng;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gap {
    /// must touch the previous piece
    None,
    /// may touch it
    Opt,
    /// blanks needed
    Req,
}

pub type Piece = (Gap, String);

pub fn p(g: Gap, s: impl Into<String>) -> Piece {
    (g, s.into())
}

/// Blanks the library documents as whitespace.
pub const BLANKS: [&str; 6] = [" ", "  ", "\t", "\n", "\r\n", " \x0c "];

/// Plain rendering: single blanks where needed, as a person would write.
pub fn plain(ps: &[Piece]) -> String {
    let mut s = String::new();
    for (i, (g, t)) in ps.iter().enumerate() {
        if i > 0 && *g == Gap::Req {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

/// Random rendering: blanks anywhere they may stand, random letter case.
pub fn fancy(r: &mut Rng, ps: &[Piece], spaces: bool, case: bool) -> String {
    let mut s = String::new();
    if spaces && r.chance(1, 3) {
        s.push_str(r.pick::<&str>(&BLANKS));
    }
    for (i, (g, t)) in ps.iter().enumerate() {
        if i > 0 {
            match g {
                Gap::None => {}
                Gap::Opt => {
                    if spaces && r.chance(1, 2) {
                        s.push_str(r.pick::<&str>(&BLANKS));
                    }
                }
                Gap::Req => {
                    if spaces {
                        s.push_str(r.pick::<&str>(&BLANKS));
                        if r.chance(1, 6) {
                            s.push_str(r.pick::<&str>(&BLANKS));
                        }
                    } else {
                        s.push(' ');
                    }
                }
            }
        }
        s.push_str(t);
    }
    if spaces && r.chance(1, 3) {
        s.push_str(r.pick::<&str>(&BLANKS));
    }
    if case {
        s = recase(r, &s);
    }
    s
}

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s
            .chars()
            .map(|c| {
                if r.chance(1, 2) {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect(),
    }
}

// ---- dates -----------------------------------------------------------------

pub const DATE_KINDS: usize = 24;

pub struct DateForm {
    pub pieces: Vec<Piece>,
    pub class: &'static str,
    /// reads the same under every field order
    pub self_id: bool,
    /// separate words with a month name: a time may stand before or inside
    pub words: bool,
    /// index of the year piece among the pieces of a word form
    pub year_at: usize,
    /// the last piece ends in a letter
    pub ends_alpha: bool,
    /// an era may follow
    pub era_ok: bool,
    /// letters that touch the end would be read as part of the date
    pub greedy: bool,
}

pub fn month_word(r: &mut Rng, m: i64) -> String {
    let i = (m - 1) as usize;
    match r.below(5) {
        0 | 1 => MONTHS[i].to_string(),
        2 if m == 9 => "Sept".to_string(),
        _ => MON[i].to_string(),
    }
}

pub fn weekday_word(r: &mut Rng, n: i64) -> String {
    let i = dow(n) as usize;
    match r.below(6) {
        0 | 1 => WDAYS[i].to_string(),
        2 if i == 2 => "Tues".to_string(),
        2 if i == 3 => "Weds".to_string(),
        2 if i == 4 => (*r.pick(&["Thur", "Thurs"])).to_string(),
        _ => WDAY[i].to_string(),
    }
}

fn num2(r: &mut Rng, v: i64) -> String {
    if r.chance(1, 3) {
        format!("{}", v)
    } else {
        format!("{:02}", v)
    }
}

fn full_year(r: &mut Rng, y: i64) -> String {
    let v = shown_year(y);
    if v >= 100 && v < 1000 && r.chance(1, 4) || v > 0 && v < 100 && r.chance(1, 6) {
        format!("{:03}", v)
    } else if r.chance(1, 24) && v < 10_000 {
        format!("{:05}", v)
    } else {
        format!("{:04}", v)
    }
}

fn short_year(r: &mut Rng, y: i64) -> String {
    let v = y.rem_euclid(100);
    if v < 10 && r.chance(1, 6) {
        format!("{}", v)
    } else {
        format!("{:02}", v)
    }
}

/// A date of the given notation, or None where the notation cannot spell it.
/// y is astronomical. The era is not included (see `era`).
pub fn date_form(r: &mut Rng, y: i64, m: i64, d: i64, or: Or, kind: usize) -> Option<DateForm> {
    use Gap::*;
    let sep = *r.pick(&["-", "/", "."]);
    let short_ok = (1970..=2069).contains(&y);
    let month_ok = (1..=12).contains(&m);
    let dmy = |r: &mut Rng, a: String| -> (String, String, String) {
        // (first, second, third) under the order, year text a
        let (mm, dd) = (num2(r, m), num2(r, d));
        match or {
            Or::Ymd => (a, mm, dd),
            Or::Dmy => (dd, mm, a),
            Or::Mdy => (mm, dd, a),
        }
    };
    let one = |s: String, class: &'static str, self_id: bool| DateForm {
        pieces: vec![p(None, s)],
        class,
        self_id,
        words: false,
        year_at: 0,
        ends_alpha: false,
        era_ok: true,
        greedy: false,
    };
    let words = |v: Vec<Piece>, class: &'static str, self_id: bool, year_at: usize, ends_alpha: bool| DateForm {
        pieces: v,
        class,
        self_id,
        words: true,
        year_at,
        ends_alpha,
        era_ok: true,
        greedy: false,
    };
    let fy = full_year(r, y);
    let sy = short_year(r, y);
    // separate words take up to five digits as a year
    let word_year_ok = fy.len() <= 5;
    let short = |f: DateForm| DateForm { era_ok: false, ..f };
    let greedy = |f: DateForm| DateForm { greedy: true, ..f };
    Some(match kind {
        0 | 21 | 22 => one(
            format!("{}{}{}{}{}", fy, sep, num2(r, m), sep, num2(r, d)),
            "year-first delimited",
            true,
        ),
        1 | 23 => {
            if or == Or::Ymd {
                return Option::None;
            }
            let (a, b, c) = dmy(r, fy);
            one(format!("{}{}{}{}{}", a, sep, b, sep, c), "delimited in field order", false)
        }
        2 => {
            if !short_ok {
                return Option::None;
            }
            let (a, b, c) = dmy(r, sy);
            short(one(
                format!("{}{}{}{}{}", a, sep, b, sep, c),
                "delimited with two-digit year",
                false,
            ))
        }
        3 => {
            if !word_year_ok {
                return Option::None;
            }
            let (a, b, c) = dmy(r, fy);
            let mut f = words(vec![p(None, a), p(Req, b), p(Req, c)], "separate numbers", or == Or::Ymd, 0, false);
            f.words = false;
            f
        }
        4 => {
            if !short_ok {
                return Option::None;
            }
            let (a, b, c) = dmy(r, sy);
            let mut f = words(
                vec![p(None, a), p(Req, b), p(Req, c)],
                "separate numbers with two-digit year",
                false,
                0,
                false,
            );
            f.words = false;
            short(f)
        }
        5 | 6 | 7 => {
            if !word_year_ok || !month_ok {
                return Option::None;
            }
            let mw = month_word(r, m);
            let dd = num2(r, d);
            match kind {
                5 => {
                    let dd = if r.chance(1, 2) { dd + "," } else { dd };
                    let g = if dd.ends_with(',') { Opt } else { Req };
                    words(vec![p(None, mw), p(Req, dd), p(g, fy)], "month name, day, year", true, 2, false)
                }
                6 => words(vec![p(None, dd), p(Opt, mw), p(Req, fy)], "day, month name, year", true, 2, false),
                _ => words(vec![p(None, fy), p(Opt, mw), p(Req, dd)], "year, month name, day", true, 0, false),
            }
        }
        8 | 9 | 10 => {
            if !month_ok {
                return Option::None;
            }
            let mw = month_word(r, m);
            let dd = num2(r, d);
            greedy(match kind {
                8 => one(format!("{}{}{}{}{}", mw, sep, dd, sep, fy), "delimited month name first", true),
                9 => one(format!("{}{}{}{}{}", dd, sep, mw, sep, fy), "delimited month name second", true),
                _ => one(format!("{}{}{}{}{}", fy, sep, mw, sep, dd), "delimited year, month name", true),
            })
        }
        11 | 12 | 13 => {
            if !short_ok || !month_ok || (kind == 13) != (or == Or::Ymd) {
                return Option::None;
            }
            let mw = month_word(r, m);
            let dd = num2(r, d);
            short(match kind {
                11 => words(
                    vec![p(None, dd), p(Req, mw), p(Req, sy)],
                    "day, month name, two-digit year",
                    false,
                    2,
                    false,
                ),
                12 => words(
                    vec![p(None, mw), p(Req, dd), p(Req, sy)],
                    "month name, day, two-digit year",
                    false,
                    2,
                    false,
                ),
                _ => words(
                    vec![p(None, sy), p(Req, mw), p(Req, dd)],
                    "two-digit year, month name, day",
                    false,
                    0,
                    false,
                ),
            })
        }
        14 => {
            if !short_ok || !month_ok {
                return Option::None;
            }
            let mw = month_word(r, m);
            let dd = num2(r, d);
            greedy(short(one(
                match (or, r.below(2)) {
                    (Or::Ymd, _) => format!("{}{}{}{}{}", sy, sep, mw, sep, dd),
                    (_, 0) => format!("{}{}{}{}{}", dd, sep, mw, sep, sy),
                    _ => format!("{}{}{}{}{}", mw, sep, dd, sep, sy),
                },
                "delimited month name, two-digit year",
                false,
            )))
        }
        15 => {
            if m > 99 || d > 99 {
                return Option::None;
            }
            one(format!("{:04}{:02}{:02}", shown_year(y), m, d), "compact eight digits", true)
        }
        16 => {
            if !short_ok || m > 99 || d > 99 {
                return Option::None;
            }
            short(one(format!("{:02}{:02}{:02}", y % 100, m, d), "compact six digits", true))
        }
        17 | 18 => {
            if !valid_ymd(y, m, d) {
                return Option::None;
            }
            let n = doy(day_of(y, m, d));
            doy_form(r, y, n, or, kind == 18)?
        }
        19 => {
            if !valid_ymd(y, m, d) {
                return Option::None;
            }
            let j = day_of(y, m, d) + 2_451_545;
            let w = *r.pick(&["J", "j", "JD", "Julian"]);
            let g = if r.chance(1, 2) { None } else { Opt };
            DateForm {
                pieces: vec![p(None, w), p(g, format!("{}", j))],
                class: "julian day",
                self_id: true,
                words: false,
                year_at: 0,
                ends_alpha: false,
                era_ok: false,
                greedy: false,
            }
        }
        20 => {
            let a = if r.chance(1, 4) { format!("{}", shown_year(y)) } else { fy };
            let mut parts = vec![
                ("y", a),
                ("m", num2(r, m)),
                ("d", num2(r, d)),
            ];
            if r.chance(1, 4) {
                let k = r.below(3) as usize;
                parts.rotate_left(k);
                if r.chance(1, 2) {
                    parts.swap(0, 1);
                }
            }
            let mut v = vec![];
            for (i, (l, t)) in parts.into_iter().enumerate() {
                v.push(p(if i == 0 { None } else { Opt }, l));
                v.push(p(Opt, t));
            }
            DateForm {
                pieces: v,
                class: "labelled date",
                self_id: true,
                words: false,
                year_at: 0,
                ends_alpha: false,
                era_ok: true,
                greedy: false,
            }
        }
        _ => return Option::None,
    })
}

/// year and day of year (which may be out of range)
pub fn doy_form(r: &mut Rng, y: i64, n: i64, or: Or, short: bool) -> Option<DateForm> {
    let sep = *r.pick(&["-", "/", "."]);
    if short {
        if or != Or::Ymd || !(1970..=2069).contains(&y) {
            return None;
        }
        return Some(DateForm {
            pieces: vec![p(Gap::None, format!("{:02}{}{:03}", y % 100, sep, n))],
            class: "two-digit year and day of year",
            self_id: false,
            words: false,
            year_at: 0,
            ends_alpha: false,
            era_ok: false,
            greedy: false,
        });
    }
    let fy = format!("{:04}", shown_year(y));
    let pieces = if r.chance(1, 6) && fy.len() <= 5 {
        vec![p(Gap::None, fy), p(Gap::Req, format!("{:03}", n))]
    } else {
        vec![p(Gap::None, format!("{}{}{:03}", fy, sep, n))]
    };
    Some(DateForm {
        pieces,
        class: "day of year",
        self_id: true,
        words: false,
        year_at: 0,
        ends_alpha: false,
        era_ok: true,
        greedy: false,
    })
}

/// " BC" for years before 1; sometimes " AD" otherwise
pub fn era(r: &mut Rng, y: i64, after_alpha: bool) -> Option<Piece> {
    let g = if after_alpha { Gap::Req } else { Gap::Opt };
    if y <= 0 {
        Some(p(if r.chance(3, 4) { Gap::Req } else { g }, "BC"))
    } else if r.chance(1, 8) {
        Some(p(if r.chance(3, 4) { Gap::Req } else { g }, "AD"))
    } else {
        None
    }
}

// ---- times -----------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Clock {
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    /// fraction digits: value and count (0..=7)
    pub fr: i64,
    pub nd: u32,
}

impl Clock {
    /// microseconds since midnight, rounded half up in the seventh digit
    pub fn us(&self) -> i64 {
        ((self.h * 60 + self.mi) * 60 + self.s) * SEC + self.frac_us()
    }
    pub fn frac_us(&self) -> i64 {
        if self.nd <= 6 {
            self.fr * 10i64.pow(6 - self.nd)
        } else {
            (self.fr + 5) / 10
        }
    }
    /// a seventh digit 5 is a tie below the resolution
    pub fn tie(&self) -> bool {
        self.nd == 7 && self.fr % 10 == 5
    }
    pub fn frac_text(&self) -> String {
        if self.nd == 0 {
            String::new()
        } else {
            format!(".{:0w$}", self.fr, w = self.nd as usize)
        }
    }
}

pub fn clock_rand(r: &mut Rng) -> Clock {
    let (h, mi, s) = match r.below(8) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        2 => (12, r.range(0, 59), r.range(0, 59)),
        3 => (0, r.range(0, 59), r.range(0, 59)),
        4 => (r.range(0, 23), r.range(0, 59), 0),
        _ => (r.range(0, 23), r.range(0, 59), r.range(0, 59)),
    };
    let nd = if r.chance(1, 2) { 0 } else { r.range(1, 7) as u32 };
    let top = 10i64.pow(nd) - 1;
    let fr = match r.below(4) {
        0 => 0,
        1 => top,
        _ => r.range(0, top),
    };
    Clock { h, mi, s, fr, nd }
}

pub const TIME_KINDS: usize = 13;

pub struct TimeForm {
    pub pieces: Vec<Piece>,
    pub class: &'static str,
    /// only after a date
    pub needs_date: bool,
    /// needs blanks after a date that ends in a digit (else: may touch it)
    pub own_word: bool,
    /// contains the labels h, m(m), s
    pub labelled: bool,
    pub ends_alpha: bool,
}

pub fn time_form(r: &mut Rng, c: Clock, kind: usize) -> Option<TimeForm> {
    use Gap::*;
    let n2 = |r: &mut Rng, v: i64| num2(r, v);
    let mk = |pieces: Vec<Piece>, class: &'static str| TimeForm {
        pieces,
        class,
        needs_date: false,
        own_word: true,
        labelled: false,
        ends_alpha: false,
    };
    let compact_ok = c.h < 100 && c.mi < 100 && c.s < 100;
    Some(match kind {
        0 | 11 | 12 => {
            let t = format!("{}:{}:{}{}", n2(r, c.h), n2(r, c.mi), n2(r, c.s), c.frac_text());
            mk(vec![p(None, t)], if c.nd > 0 { "clock with fraction" } else { "clock" })
        }
        1 => {
            if c.s != 0 || c.nd != 0 {
                return Option::None;
            }
            mk(vec![p(None, format!("{}:{}", n2(r, c.h), n2(r, c.mi)))], "hour and minute")
        }
        2 | 10 => {
            if c.h > 23 {
                return Option::None;
            }
            let pm = c.h >= 12;
            let h = if c.h % 12 == 0 { 12 } else { c.h % 12 };
            let t = if kind == 10 {
                if c.mi > 99 || c.s > 99 {
                    return Option::None;
                }
                format!("{:02}{:02}{:02}{}", h, c.mi, c.s, c.frac_text())
            } else if c.s == 0 && c.nd == 0 && r.chance(1, 2) {
                format!("{}:{:02}", h, c.mi)
            } else {
                format!("{}:{:02}:{:02}{}", h, c.mi, c.s, c.frac_text())
            };
            let mut f = mk(
                vec![p(None, t), p(Opt, if pm { "PM" } else { "AM" })],
                match (kind, pm) {
                    (10, _) => "compact clock AM/PM",
                    (_, true) => "clock PM",
                    _ => "clock AM",
                },
            );
            f.ends_alpha = true;
            f
        }
        3 => {
            if !compact_ok {
                return Option::None;
            }
            mk(
                vec![p(None, format!("{:02}{:02}{:02}{}", c.h, c.mi, c.s, c.frac_text()))],
                "compact clock",
            )
        }
        4 => {
            if !compact_ok || c.s != 0 || c.nd != 0 {
                return Option::None;
            }
            mk(vec![p(None, format!("{:02}{:02}", c.h, c.mi))], "compact hour and minute")
        }
        5 => {
            let t = format!("{:02}:{:02}:{:02}{}", c.h, c.mi, c.s, c.frac_text());
            let g = if r.chance(1, 6) { Opt } else { None };
            TimeForm {
                pieces: vec![p(None, "T"), p(g, t)],
                class: "T clock",
                needs_date: true,
                own_word: false,
                labelled: false,
                ends_alpha: false,
            }
        }
        6 => {
            if !compact_ok {
                return Option::None;
            }
            let t = format!("{:02}{:02}{:02}{}", c.h, c.mi, c.s, c.frac_text());
            let g = if r.chance(1, 6) { Opt } else { None };
            TimeForm {
                pieces: vec![p(None, "T"), p(g, t)],
                class: "T compact clock",
                needs_date: true,
                own_word: false,
                labelled: false,
                ends_alpha: false,
            }
        }
        7 => {
            let ml = if r.chance(1, 2) { "m" } else { "mm" };
            let mut f = mk(
                vec![
                    p(None, "h"),
                    p(Opt, n2(r, c.h)),
                    p(Opt, ml),
                    p(Opt, n2(r, c.mi)),
                    p(Opt, "s"),
                    p(Opt, n2(r, c.s) + &c.frac_text()),
                ],
                "labelled clock",
            );
            f.labelled = true;
            f.own_word = false;
            f
        }
        8 => {
            if c.us() != 0 || c.nd != 0 {
                return Option::None;
            }
            let mut f = mk(vec![p(None, "allballs")], "allballs");
            f.ends_alpha = true;
            f
        }
        9 => {
            if c.h != 0 || c.nd == 0 {
                return Option::None;
            }
            mk(
                vec![p(None, format!("{}:{:02}{}", n2(r, c.mi), c.s, c.frac_text()))],
                "minutes and seconds with fraction",
            )
        }
        _ => return Option::None,
    })
}

// ---- date and time together --------------------------------------------------

pub struct Spelled {
    pub pieces: Vec<Piece>,
    pub class: &'static str,
    pub time_class: &'static str,
    pub self_id: bool,
}

/// Spells a date, with a clock when given. None where the notations do not fit
/// together.
pub fn spell(r: &mut Rng, y: i64, m: i64, d: i64, or: Or, kind: usize, time: Option<(Clock, usize)>) -> Option<Spelled> {
    let mut df = date_form(r, y, m, d, or, kind)?;
    let valid = valid_ymd(y, m, d);
    if y <= 0 && !df.era_ok && df.class != "julian day" {
        return None;
    }
    let mut pieces: Vec<Piece> = vec![];
    let mut time_class = "none";
    let mut alpha = df.ends_alpha || df.greedy;
    let mut era_first = r.chance(1, 2);
    match time {
        None => pieces.append(&mut df.pieces),
        Some((c, tk)) => {
            let mut tf = time_form(r, c, tk)?;
            time_class = tf.class;
            let inside = df.words && !tf.needs_date && !tf.labelled && (tf.class.starts_with("clock") || tf.class == "hour and minute");
            match r.below(4) {
                // before the date
                0 if inside => {
                    pieces.append(&mut tf.pieces);
                    df.pieces[0].0 = Gap::Req;
                    pieces.append(&mut df.pieces);
                    alpha = df.ends_alpha || df.greedy;
                }
                // between day and year, as in the Postgres style
                1 if inside && df.year_at == 2 => {
                    let year = df.pieces.pop().unwrap();
                    pieces.append(&mut df.pieces);
                    tf.pieces[0].0 = Gap::Req;
                    pieces.append(&mut tf.pieces);
                    pieces.push(p(Gap::Req, year.1));
                    alpha = false;
                }
                _ => {
                    if df.era_ok && era_first && y <= 0 {
                        pieces.append(&mut df.pieces);
                        if let Some(e) = era(r, y, alpha) {
                            pieces.push(e);
                        }
                        // a word now precedes the time
                        tf.pieces[0].0 = Gap::Req;
                        pieces.append(&mut tf.pieces);
                        return Some(finish(r, pieces, df, valid, y, m, d, time_class, true, tf.ends_alpha));
                    }
                    era_first = false;
                    pieces.append(&mut df.pieces);
                    tf.pieces[0].0 = if tf.own_word || alpha { Gap::Req } else { Gap::Opt };
                    // a comma ends the date
                    if r.chance(1, 8) {
                        if let Some(last) = pieces.last_mut() {
                            last.1.push(',');
                        }
                        tf.pieces[0].0 = if tf.own_word { Gap::Req } else { Gap::Opt };
                    }
                    pieces.append(&mut tf.pieces);
                    alpha = tf.ends_alpha;
                }
            }
        }
    }
    let _ = era_first;
    Some(finish(r, pieces, df, valid, y, m, d, time_class, false, alpha))
}

#[allow(clippy::too_many_arguments)]
fn finish(
    r: &mut Rng,
    mut pieces: Vec<Piece>,
    df: DateForm,
    valid: bool,
    y: i64,
    m: i64,
    d: i64,
    time_class: &'static str,
    era_done: bool,
    alpha: bool,
) -> Spelled {
    let mut alpha = alpha;
    if !era_done && df.era_ok {
        if let Some(e) = era(r, y, alpha) {
            pieces.push(e);
            alpha = true;
        }
    }
    if valid && r.chance(1, 5) {
        let w = weekday_word(r, day_of(y, m, d));
        // as in PostgreSQL, a weekday does not stand before a delimited date
        let delimited = df.class.contains("delimited") || df.class.contains("day of year");
        if r.chance(2, 3) && !delimited {
            let comma = r.chance(1, 3);
            let w = if comma { w + "," } else { w };
            pieces[0].0 = if comma { Gap::Opt } else { Gap::Req };
            pieces.insert(0, p(Gap::None, w));
        } else {
            let _ = alpha;
            pieces.push(p(Gap::Req, w));
        }
    }
    Spelled {
        pieces,
        class: df.class,
        time_class,
        self_id: df.self_id,
    }
}
