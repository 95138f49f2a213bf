//! The field splitter of the reference readers: text into typed fields, by
//! the documented rules. Shared by the interval and the date/time reader.

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Kind {
    /// digits, perhaps with a point
    Number,
    /// digits and delimiters, or a word glued to digits or delimiters
    Date,
    Clock,
    Word,
    SignedWord,
    SignedNumber,
}

#[derive(Debug)]
pub struct Tok {
    pub kind: Kind,
    pub sign: Option<bool>,
    pub body: String,
}

/// words of a date, after which a digit may follow at once
const BREAKS: &[&str] = &[
    "d", "h", "m", "mm", "s", "y", "j", "jd", "julian", "t", "dow", "doy", "isodow", "at", "on", "am", "pm", "ad", "bc", "allballs", "infinity", "epoch", "now", "today", "tomorrow", "yesterday", "current",
    "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug", "august", "sep", "sept", "september", "oct", "october",
    "nov", "november", "dec", "december", "mon", "monday", "tue", "tues", "tuesday", "wed", "weds", "wednesday", "thu", "thur", "thurs", "thursday", "fri", "friday", "sat",
    "saturday", "sun", "sunday",
];

pub fn lex(s: &str) -> Result<Vec<Tok>, &'static str> {
    let b = s.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let run = |i: usize, f: &dyn Fn(u8) -> bool| {
        let mut j = i;
        while j < b.len() && f(b[j]) {
            j += 1;
        }
        j
    };
    let white = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c);
    let digit = |c: u8| c.is_ascii_digit();
    let mut out = vec![];
    let mut used = 0;
    let mut i = 0;
    loop {
        i = run(i, &white);
        if i >= b.len() {
            break;
        }
        let c = b[i];
        if !c.is_ascii_alphanumeric() && c != b'.' && c != b'+' && c != b'-' && c.is_ascii_punctuation() {
            i += 1;
            continue;
        }
        if out.len() == 25 {
            return Err("more than 25 fields");
        }
        let (mut sign, mut start) = (None, i);
        let (kind, end);
        if c == b'+' || c == b'-' {
            sign = Some(c == b'-');
            start = run(i + 1, &white);
            used += 1;
            let n = at(start);
            if digit(n) {
                end = run(start, &|c| digit(c) || c == b':' || c == b'.' || c == b'-');
                kind = Kind::SignedNumber;
            } else if n.is_ascii_alphabetic() {
                end = run(start, &|c| c.is_ascii_alphabetic());
                kind = Kind::SignedWord;
            } else {
                return Err("a sign before nothing");
            }
        } else if digit(c) {
            let j = run(i, &digit);
            match at(j) {
                b':' => {
                    end = run(j, &|c| digit(c) || c == b':' || c == b'.');
                    kind = Kind::Clock;
                }
                q @ (b'-' | b'/' | b'.') => {
                    if digit(at(j + 1)) {
                        let k = run(j + 1, &digit);
                        let twice = at(k) == q;
                        end = if twice { run(k, &|c| digit(c) || c == q) } else { k };
                        kind = if q == b'.' && !twice { Kind::Number } else { Kind::Date };
                    } else {
                        end = run(j + 1, &|c| c.is_ascii_alphanumeric() || c == q);
                        kind = if q == b'.' && j + 1 == b.len() { Kind::Number } else { Kind::Date };
                    }
                }
                _ => {
                    end = j;
                    kind = Kind::Number;
                }
            }
        } else if c == b'.' {
            end = run(i + 1, &digit);
            if end == i + 1 {
                return Err("a point before nothing");
            }
            kind = Kind::Number;
        } else if c.is_ascii_alphabetic() {
            let j = run(i, &|c| c.is_ascii_alphabetic());
            let w = s[i..j].to_ascii_lowercase();
            let n = at(j);
            if matches!(n, b'-' | b'/' | b'.') || ((n == b'+' || digit(n)) && !BREAKS.contains(&w.as_str())) {
                end = run(j, &|c| c.is_ascii_alphanumeric() || matches!(c, b'+' | b'-' | b'/' | b'_' | b'.' | b':'));
                kind = Kind::Date;
            } else {
                end = j;
                kind = Kind::Word;
            }
        } else {
            return Err("a character of no field");
        }
        used += end - start;
        if used > 128 {
            return Err("too long");
        }
        out.push(Tok { kind, sign, body: s[start..end].to_ascii_lowercase() });
        i = end;
    }
    Ok(out)
}

/// unsigned digits as a 32-bit number; none at all count as zero
pub fn int32(s: &str, neg: bool) -> Option<i64> {
    if s.len() > 10 {
        return None;
    }
    let v: i64 = if s.is_empty() { 0 } else { s.parse().ok()? };
    if v > i32::MAX as i64 + neg as i64 {
        return None;
    }
    Some(v)
}

/// h:m, h:m:s, m:s.f, h:m:s.f: (h, m, s, digits of the fraction)
pub fn clock_parts(body: &str, ms: bool) -> Result<(i64, i64, i64, &str), &'static str> {
    let (whole, frac) = match body.find('.') {
        Some(k) => (&body[..k], &body[k + 1..]),
        None => (body, ""),
    };
    let parts: Vec<&str> = whole.split(':').collect();
    if parts.len() < 2 || parts.len() > 3 || parts.iter().any(|p| !p.bytes().all(|c| c.is_ascii_digit())) {
        return Err("not a clock");
    }
    if !frac.bytes().all(|c| c.is_ascii_digit()) {
        return Err("not a clock");
    }
    if frac.len() > 7 {
        return Err("over-long fraction");
    }
    let mut v = vec![];
    for p in &parts {
        v.push(int32(p, false).ok_or("number beyond 32 bits")?);
    }
    let (h, m, s) = match v[..] {
        [a, b] if whole.len() < body.len() || ms => (0, a, b),
        [a, b] => (a, b, 0),
        [a, b, c] => (a, b, c),
        _ => return Err("not a clock"),
    };
    if m > 59 || s > 60 {
        return Err("clock out of range");
    }
    Ok((h, m, s, frac))
}
