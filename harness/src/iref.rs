//! A reference reader of interval text, written from the documented grammar
//! and independent of the parser under test: it says of any text whether it is
//! an interval, and of which quantities it is then the sum.

use crate::core::*;
use crate::ispell::*;
use crate::iv::Iv;
use crate::lexref::*;
use crate::model::*;
use crate::props::itext::parse_iv;
use crate::soup;

pub enum Read {
    /// not an interval
    No(&'static str),
    /// an interval, this sum
    Sum(Sum),
    /// if it is accepted (a partial sum may overflow), then as this sum
    SumIf(Sum),
    /// a known finding decides
    Unsure,
}

/// digits [. digits], unsigned
fn decimal(s: &str, neg: bool) -> Result<Num, &'static str> {
    let (i, f) = match s.find('.') {
        Some(k) => (&s[..k], &s[k + 1..]),
        None => (s, ""),
    };
    if !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
        return Err("not a number");
    }
    if i.is_empty() && f.is_empty() {
        return Err("a number without digits");
    }
    let int = int32(i, neg).ok_or("number beyond 32 bits")?;
    if f.len() > 7 {
        return Err("over-long fraction");
    }
    Ok(Num { int, fr: if f.is_empty() { 0 } else { f.parse().map_err(|_| "fraction")? }, nd: f.len() as u32 })
}

enum Word {
    Unit(Unit),
    /// a unit of time that no interval counts in
    Other,
    Ago,
    No,
}
fn word(w: &str) -> Word {
    if w == "ago" {
        return Word::Ago;
    }
    if matches!(w, "qtr" | "quarter" | "timezone") {
        return Word::Other;
    }
    let cut = &w[..w.len().min(10)];
    for u in ALL_UNITS {
        for x in u.words() {
            // keywords count to their tenth letter
            if cut == &x[..x.len().min(10)] && (w.len() == cut.len() || x.len() >= 10) {
                return Word::Unit(u);
            }
        }
    }
    Word::No
}

/// what may be given once
fn once(u: Unit, n: &Num) -> u32 {
    if u == Unit::S && n.fr != 0 {
        7
    } else {
        1 << u as u32
    }
}
const CLOCK_MASK: u32 = 1 << Unit::H as u32 | 1 << Unit::Min as u32 | 7;

struct Total {
    sum: Sum,
    abs: Sum,
    groups: u32,
    shared: bool,
}
impl Total {
    fn add(&mut self, neg: bool, n: &Num, u: Unit) {
        self.sum.add(neg, n, u);
        self.abs.add(false, n, u);
        let g = u.group() | if n.fr != 0 { u.carries() } else { 0 };
        if self.groups & g != 0 {
            self.shared = true;
        }
        self.groups |= g;
    }
}

fn traditional(toks: &[Tok], range: &Range, to: &mut Total) -> Result<bool, &'static str> {
    let mut seen = 0u32;
    let mut unit = Some(range.unit); // None: a number has no meaning here
    let mut pending = false;
    let mut ago = false;
    for t in toks.iter().rev() {
        let neg = t.sign == Some(true);
        let mask;
        match t.kind {
            Kind::SignedWord => return Err("a signed word"),
            Kind::Date if !t.body.starts_with(|c: char| c.is_ascii_digit()) => return Err("a word glued to something"),
            Kind::Word => {
                match word(&t.body) {
                    Word::No => return Err("not a unit"),
                    Word::Ago => {
                        ago = true;
                        unit = None;
                    }
                    w => {
                        if pending {
                            return Err("a unit without a value");
                        }
                        pending = true;
                        unit = if let Word::Unit(u) = w { Some(u) } else { None };
                    }
                }
                continue;
            }
            Kind::Clock | Kind::SignedNumber if t.body.contains(':') => {
                let (h, m, s, f) = clock_parts(&t.body, range.ms)?;
                let n = |int| Num { int, fr: 0, nd: 0 };
                to.add(neg, &n(h), Unit::H);
                to.add(neg, &n(m), Unit::Min);
                to.add(neg, &Num { int: s, fr: if f.is_empty() { 0 } else { f.parse().unwrap() }, nd: f.len() as u32 }, Unit::S);
                mask = CLOCK_MASK;
                unit = Some(Unit::D);
            }
            _ => {
                if let Some(k) = t.body.find('-') {
                    let (y, m) = (&t.body[..k], &t.body[k + 1..]);
                    if !y.bytes().chain(m.bytes()).all(|c| c.is_ascii_digit()) {
                        return Err("not a year-month literal");
                    }
                    let y = int32(y, neg).ok_or("number beyond 32 bits")?;
                    let m = int32(m, false).ok_or("number beyond 32 bits")?;
                    if m > 11 {
                        return Err("month beyond 11");
                    }
                    to.add(neg, &Num { int: y * 12 + m, fr: 0, nd: 0 }, Unit::Mon);
                    mask = 1 << Unit::Mon as u32;
                    unit = Some(Unit::Mon);
                } else {
                    let n = decimal(&t.body, neg)?;
                    let Some(u) = unit else { return Err("a number without a unit") };
                    to.add(neg, &n, u);
                    mask = once(u, &n);
                    if u == Unit::H {
                        unit = Some(Unit::D);
                    }
                }
            }
        }
        if seen & mask != 0 {
            return Err("a field given twice");
        }
        seen |= mask;
        pending = false;
    }
    if pending {
        return Err("a unit without a value");
    }
    if seen == 0 {
        return Err("no quantity");
    }
    Ok(ago)
}

/// [-] digits [. digits] at the start: the number, whether it is negative, what is left
fn iso_number(s: &str, signed: bool) -> Result<(Num, bool, usize, &str), &'static str> {
    let (neg, b) = match s.strip_prefix('-') {
        Some(b) if signed => (true, b),
        Some(_) => return Err("a sign in the alternative format"),
        None => (false, s),
    };
    let i = b.bytes().take_while(|c| c.is_ascii_digit()).count();
    let f = match b[i..].strip_prefix('.') {
        Some(f) => 1 + f.bytes().take_while(|c| c.is_ascii_digit()).count(),
        None => 0,
    };
    Ok((decimal(&b[..i + f], neg)?, neg, i, &b[i + f..]))
}

fn iso8601(s: &str, to: &mut Total, dfrac: &mut bool) -> Result<(), &'static str> {
    let mut s = s.strip_prefix('P').ok_or("no P")?;
    if s.is_empty() {
        return Err("only P");
    }
    let mut date = true;
    let mut designated = false;
    let n = |int| Num { int, fr: 0, nd: 0 };
    while !s.is_empty() {
        if let Some(t) = s.strip_prefix('T') {
            date = false;
            designated = false;
            s = t;
            continue;
        }
        let (v, neg, width, rest) = iso_number(s, true)?;
        let unit = rest.chars().next();
        let u = match (date, unit) {
            (true, Some('Y')) => Some(Unit::Y),
            (true, Some('M')) => Some(Unit::Mon),
            (true, Some('W')) => Some(Unit::W),
            (true, Some('D')) => Some(Unit::D),
            (false, Some('H')) => Some(Unit::H),
            (false, Some('M')) => Some(Unit::Min),
            (false, Some('S')) => Some(Unit::S),
            _ => None,
        };
        if let Some(u) = u {
            to.add(neg, &v, u);
            designated = true;
            s = &rest[1..];
            continue;
        }
        // the alternative formats
        if neg {
            return Err("a sign in the alternative format");
        }
        if designated {
            return Err("alternative format after a designator");
        }
        if date {
            match unit {
                None | Some('T') if width == 8 => {
                    to.add(false, &n(v.int / 10000), Unit::Y);
                    to.add(false, &n(v.int / 100 % 100), Unit::Mon);
                    to.add(false, &Num { int: v.int % 100, ..v }, Unit::D);
                    *dfrac |= v.fr != 0;
                    s = rest;
                }
                None | Some('T') => {
                    to.add(false, &v, Unit::Y);
                    s = rest;
                }
                Some('-') => {
                    to.add(false, &v, Unit::Y);
                    let (m, _, _, rest) = iso_number(&rest[1..], false)?;
                    to.add(false, &m, Unit::Mon);
                    let rest = match rest.strip_prefix('-') {
                        Some(d) => {
                            let (d, _, _, rest) = iso_number(d, false)?;
                            to.add(false, &d, Unit::D);
                            rest
                        }
                        None => rest,
                    };
                    s = rest;
                }
                _ => return Err("no designator"),
            }
            if !s.is_empty() && !s.starts_with('T') {
                return Err("more after the alternative format");
            }
        } else {
            let rest = match unit {
                None if width == 6 => {
                    to.add(false, &n(v.int / 10000), Unit::H);
                    to.add(false, &n(v.int / 100 % 100), Unit::Min);
                    to.add(false, &Num { int: v.int % 100, ..v }, Unit::S);
                    rest
                }
                None => {
                    to.add(false, &v, Unit::H);
                    rest
                }
                Some(':') => {
                    to.add(false, &v, Unit::H);
                    let (m, _, _, rest) = iso_number(&rest[1..], false)?;
                    to.add(false, &m, Unit::Min);
                    match rest.strip_prefix(':') {
                        Some(x) => {
                            let (x, _, _, rest) = iso_number(x, false)?;
                            to.add(false, &x, Unit::S);
                            rest
                        }
                        None => rest,
                    }
                }
                _ => return Err("no designator"),
            };
            if !rest.is_empty() {
                return Err("more after the alternative format");
            }
            s = rest;
        }
    }
    Ok(())
}

/// what the text is; a fraction in the compact ISO date is reported beside it
pub fn read(text: &str, range: &Range, st: Is) -> (Read, bool) {
    let new = || Total { sum: Sum::default(), abs: Sum::default(), groups: 0, shared: false };
    if text.is_empty() {
        return (Read::No("empty"), false);
    }
    let toks = match lex(text) {
        Ok(t) => t,
        Err(e) => return (Read::No(e), false),
    };
    let mut to = new();
    let mut dfrac = false;
    let mut sum;
    match traditional(&toks, range, &mut to) {
        Ok(ago) => {
            sum = to.sum;
            let lead = toks[0].sign == Some(true) && toks[1..].iter().all(|t| t.sign.is_none());
            if st == Is::Sql && lead {
                if to.shared {
                    return (Read::Unsure, false);
                }
                sum = to.abs;
                sum.neg();
            }
            if ago {
                sum.neg();
            }
        }
        Err(e) => {
            to = new();
            if let Err(f) = iso8601(text, &mut to, &mut dfrac) {
                return (Read::No(if text.starts_with('P') { f } else { e }), false);
            }
            sum = to.sum;
        }
    }
    if !sum.fits() {
        return (Read::No("does not fit"), dfrac);
    }
    (if sum.safe() { Read::Sum(sum) } else { Read::SumIf(sum) }, dfrac)
}

/// interval-like text: the pieces of the grammar in any order and glue
pub fn text(r: &mut Rng) -> (String, &'static str) {
    match r.below(10) {
        0 => soup::text_class(r, crate::model::Or::Ymd),
        1 => {
            let big = r.chance(1, 4);
            let t = crate::spell::plain(&crate::ispell::traditional(r, &FULL, big).pieces);
            (soup::mutate(r, &t), "damaged interval")
        }
        2 => {
            let big = r.chance(1, 4);
            let t = iso(r, big).0;
            (soup::mutate(r, &t), "damaged iso 8601")
        }
        3..=6 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                match r.below(12) {
                    0..=2 => s.push_str(&number(r)),
                    3 | 4 => {
                        let u = *r.pick(&ALL_UNITS);
                        s.push_str(&number(r));
                        s.push_str(r.pick::<&str>(&["", " "]));
                        s.push_str(r.pick::<&str>(u.words()));
                    }
                    5 | 6 => {
                        let u = *r.pick(&ALL_UNITS);
                        s.push_str(r.pick::<&str>(u.words()));
                    }
                    7 | 8 => s.push_str(&clock_text(r)),
                    9 => s.push_str(&format!("{}{}-{}", r.pick(&["", "-", "+"]), r.range(0, 300), r.range(0, 13))),
                    10 => s.push_str(r.pick::<&str>(&["ago", "@", "-", "+", ".", ":", "/", "quarter", "dec", "mon", "infinity", "AGO", "P", "T"])),
                    _ => s.push_str(r.pick::<&str>(crate::props::text2::KNOWN_WORDS)),
                }
                if r.chance(3, 4) {
                    s.push_str(r.pick::<&str>(&[" ", " ", " ", " ", "", ",", "\t", "-", "+"]));
                }
            }
            (s, "pieces of an interval")
        }
        _ => {
            let mut s = String::from("P");
            let n = r.range(1, 6);
            for _ in 0..n {
                match r.below(10) {
                    0..=4 => {
                        s.push_str(&iso_num(r));
                        s.push_str(r.pick::<&str>(&["Y", "M", "W", "D", "H", "M", "S", "-", ":", ""]));
                    }
                    5 | 6 => s.push('T'),
                    7 => s.push_str(&format!("{:0w$}", r.range(0, 99_999_999), w = r.range(5, 9) as usize)),
                    8 => s.push_str(&format!("{}-{}-{}", iso_num(r), r.range(0, 40), r.range(0, 99))),
                    _ => s.push_str(&format!("{}:{}:{}", iso_num(r), r.range(0, 99), iso_num(r))),
                }
            }
            if r.chance(1, 20) {
                s = soup::mutate(r, &s);
            }
            (s, "pieces of iso 8601")
        }
    }
}

fn number(r: &mut Rng) -> String {
    let sg = r.pick::<&str>(&["", "", "", "-", "+", "- "]);
    match r.below(8) {
        0..=3 => format!("{}{}", sg, r.range(0, 40)),
        4 => format!("{}{}.{}", sg, r.range(0, 99), r.range(0, 99)),
        5 => format!("{}{:0w$}", sg, r.range(0, 9999), w = r.range(1, 9) as usize),
        6 => format!("{}{}{}", r.pick(&["", "-"]), r.pick(&["", ".", "."]), r.range(0, 99_999_999)),
        _ => format!("{}{}{}", sg, *r.pick(&[2147483647i64, 2147483648, 9999999999, 178956970, 178956971, 306783378, 306783379, 17895697, 1789569]), r.pick(&["", "", ".5", "."])),
    }
}

fn clock_text(r: &mut Rng) -> String {
    let sg = r.pick::<&str>(&["", "", "", "-", "+"]);
    let p = |r: &mut Rng| match r.below(8) {
        0 => String::new(),
        1 => format!("{}", r.range(55, 65)),
        2 if !sg.is_empty() => format!("-{}", r.range(0, 3)),
        _ => format!("{:02}", r.range(0, 59)),
    };
    let h = match r.below(5) {
        0 => r.range(0, 3000),
        1 => r.range(0, i32::MAX as i64 + 1),
        _ => r.range(0, 30),
    };
    let mut s = format!("{}{}:{}", sg, h, p(r));
    if r.chance(2, 3) {
        s = format!("{}:{}", s, p(r));
    }
    if r.chance(1, 12) {
        s = format!("{}:{}", s, p(r));
    }
    if r.chance(1, 3) {
        let nd = r.range(0, 8) as usize;
        s.push('.');
        s.extend((0..nd).map(|_| (b'0' + r.below(10) as u8) as char));
    }
    s
}

fn iso_num(r: &mut Rng) -> String {
    let sg = r.pick::<&str>(&["", "", "", "", "-"]);
    match r.below(8) {
        0..=4 => format!("{}{}", sg, r.range(0, 70)),
        5 => format!("{}{}.{}", sg, r.range(0, 99), r.range(0, 99_999)),
        6 => format!("{}{:0w$}", sg, r.range(0, 999_999_999), w = r.range(1, 10) as usize),
        _ => r.pick::<&str>(&[".5", ".", "-", "-.5", "2147483647", "2147483648", "-2147483648", "99999999999", "5.", "0", "+1", "1.12345678"]).to_string(),
    }
}

/// does the parser under test read the text as the reference does?
pub fn agrees(sh: &mut Shard, r: &mut Rng, known: &[String], report: bool) {
    let (text, class) = text(r);
    let st = *r.pick(&ISTYLES);
    let range = if r.chance(1, 2) { FULL } else { *r.pick(&RANGES) };
    let tmod = if range.bits == FULL.bits && r.chance(1, 2) { -1 } else { typmod(&range, 0xFFFF) };
    let (want, dfrac) = read(&text, &range, st);
    let mut kf = false;
    let desc = || format!("{:?} under {:?}, range {}", text, st, range.name);
    let key = hash64(&[hash_str(&text), st as u64, range.bits as u64]);
    let mut check = |sh: &mut Shard, class: &'static str, sum: Option<&Sum>, must: bool| {
        sh.check(class, key, desc, || match (parse_iv(&text, tmod, st), sum) {
            (Err(e), Some(s)) if must => Err(format!("rejected ({}), expected {}", e, s.show())),
            (Err(_), _) => Ok(()),
            (Ok(v), None) => Err(format!("accepted as {:?}: it is no interval", v)),
            (Ok(v), Some(s)) => {
                let tol = (U / 2 + U / 1000) * s.rounded;
                let at = |t: i128| restrict(Iv::new(s.m as i32, s.d as i32, (t / U) as i64), &range, None);
                let ok = |tol: i128| {
                    if range.bits == FULL.bits {
                        return v.m as i128 == s.m && v.d as i128 == s.d && (v.t as i128 * U - s.t).abs() <= tol;
                    }
                    let (lo, hi) = (at(s.t - tol), at(s.t + tol));
                    (v.m, v.d) == (lo.m, lo.d) && lo.t <= v.t && v.t <= hi.t
                };
                if ok(tol) {
                    return Ok(());
                }
                if dfrac && ok(tol + 1000 * U) && known.iter().any(|k| k.contains("PYYYYMMDD.f")) {
                    kf = true;
                    return Ok(());
                }
                Err(format!("read as {:?}, expected {}", v, s.show()))
            }
        })
    };
    match want {
        Read::Unsure => {}
        Read::No(why) => {
            check(sh, class, None, false);
            sh.observe(why);
        }
        Read::Sum(s) => {
            check(sh, class, Some(&s), true);
            sh.observe("an interval, by the reference reader");
        }
        Read::SumIf(s) => {
            check(sh, class, Some(&s), false);
            sh.observe("an interval that may overflow, by the reference reader");
        }
    }
    if kf && report {
        *sh.known.entry(crate::props::itext::KF_COMPACT.into()).or_insert(0) += 1;
    }
}
