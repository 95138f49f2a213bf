//! Independent reference semantics, written from the documentation of the
//! formats and calendar rules with wide integers. Nothing here calls the code
//! under test.

use crate::iv::Iv;
use std::fmt::Write as _;

pub const DAY: i64 = 86_400_000_000;
pub const HOUR: i64 = 3_600_000_000;
pub const MINUTE: i64 = 60_000_000;
pub const SEC: i64 = 1_000_000;
pub const DMIN: i64 = -2_451_545; // 4714-11-24 BC
pub const DEND: i64 = 2_147_483_494 - 2_451_545; // first unsupported day
pub const DMAX: i64 = DEND - 1; // 5874897-12-31
pub const TMIN: i64 = -211_813_488_000_000_000;
pub const TEND: i64 = 9_223_371_331_200_000_000;
pub const TMAX: i64 = TEND - 1;
pub const DNEG: i32 = i32::MIN;
pub const DPOS: i32 = i32::MAX;
pub const TNEG: i64 = i64::MIN;
pub const TPOS: i64 = i64::MAX;

pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn mdays(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => 31,
    }
}

/// days from 2000-01-01 to the first day of astronomical year y
fn year_start(y: i64) -> i64 {
    let p = y - 1; // full years before y, counted from year 1
    let days = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    days - 730_119
}

/// day number (0 = 2000-01-01) of a valid civil date, astronomical year
pub fn day_of(y: i64, m: i64, d: i64) -> i64 {
    let mut n = year_start(y);
    for k in 1..m {
        n += mdays(y, k);
    }
    n + d - 1
}

/// civil date of a day number
pub fn civil(n: i64) -> (i64, i64, i64) {
    let mut y = 2000 + (n as f64 / 365.2425).floor() as i64;
    while year_start(y) > n {
        y -= 1;
    }
    while year_start(y + 1) <= n {
        y += 1;
    }
    let mut r = n - year_start(y);
    let mut m = 1;
    while r >= mdays(y, m) {
        r -= mdays(y, m);
        m += 1;
    }
    (y, m, r + 1)
}

pub fn valid_ymd(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= mdays(y, m)
}

/// 0 = Sunday
pub fn dow(n: i64) -> i64 {
    (n + 6).rem_euclid(7)
}
/// 1 = Monday .. 7 = Sunday
pub fn isodow(n: i64) -> i64 {
    (n + 5).rem_euclid(7) + 1
}
pub fn doy(n: i64) -> i64 {
    let (y, _, _) = civil(n);
    n - year_start(y) + 1
}
/// (ISO year, astronomical; ISO week)
pub fn iso_week(n: i64) -> (i64, i64) {
    // the week belongs to the year of its Thursday
    let thursday = n - isodow(n) + 4;
    let (y, _, _) = civil(thursday);
    (y, (thursday - year_start(y)) / 7 + 1)
}

/// displayed year: no year zero
pub fn shown_year(y: i64) -> i64 {
    if y > 0 {
        y
    } else {
        1 - y
    }
}
/// astronomical year from a signed historical year
pub fn astro(y: i64) -> i64 {
    if y > 0 {
        y
    } else {
        y + 1
    }
}
pub fn no_zero_year(y: i64) -> i64 {
    if y > 0 {
        y
    } else {
        y - 1
    }
}

pub fn d_ok(n: i64) -> bool {
    (DMIN..DEND).contains(&n)
}
pub fn t_ok(n: i128) -> bool {
    n >= TMIN as i128 && n < TEND as i128
}
pub fn supported_date(v: i32) -> bool {
    v == DNEG || v == DPOS || d_ok(v as i64)
}
pub fn supported_ts(v: i64) -> bool {
    v == TNEG || v == TPOS || t_ok(v as i128)
}
pub fn supported_time(v: i64) -> bool {
    (0..=DAY).contains(&v)
}

/// (day, time of day)
pub fn split(t: i64) -> (i64, i64) {
    (t.div_euclid(DAY), t.rem_euclid(DAY))
}

// ---- printing -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Pg,
    Iso,
    Sql,
    Ger,
    Xsd,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Or {
    Ymd,
    Dmy,
    Mdy,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Is {
    Pg,
    Verbose,
    Sql,
    Iso,
}
pub const STYLES: [St; 5] = [St::Pg, St::Iso, St::Sql, St::Ger, St::Xsd];
pub const ORDERS: [Or; 3] = [Or::Ymd, Or::Dmy, Or::Mdy];
pub const ISTYLES: [Is; 4] = [Is::Pg, Is::Verbose, Is::Sql, Is::Iso];

impl St {
    pub fn real(self) -> pgdatetime::DateStyle {
        use pgdatetime::DateStyle::*;
        match self {
            St::Pg => Postgres,
            St::Iso => ISO,
            St::Sql => SQL,
            St::Ger => German,
            St::Xsd => XSD,
        }
    }
}
impl Or {
    pub fn real(self) -> pgdatetime::DateOrder {
        use pgdatetime::DateOrder::*;
        match self {
            Or::Ymd => YMD,
            Or::Dmy => DMY,
            Or::Mdy => MDY,
        }
    }
}
impl Is {
    pub fn real(self) -> pgdatetime::IntervalStyle {
        use pgdatetime::IntervalStyle::*;
        match self {
            Is::Pg => Postgres,
            Is::Verbose => PostgresVerbose,
            Is::Sql => SQLStandard,
            Is::Iso => ISO8601,
        }
    }
}

pub const MON: [&str; 12] = [
    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
];
pub const MONTHS: [&str; 12] = [
    "January", "February", "March", "April", "May", "June", "July", "August", "September",
    "October", "November", "December",
];
pub const WDAY: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
pub const WDAYS: [&str; 7] = [
    "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
];

/// fraction of a second with trailing zeros trimmed, with the dot; us in 0..1e6
pub fn frac(us: i64) -> String {
    if us == 0 {
        return String::new();
    }
    let s = format!(".{:06}", us);
    s.trim_end_matches('0').to_string()
}

pub fn clock(t: i64) -> String {
    format!(
        "{:02}:{:02}:{:02}{}",
        t / HOUR,
        t / MINUTE % 60,
        t / SEC % 60,
        frac(t % SEC)
    )
}

pub fn print_date(n: i64, st: St, or: Or) -> String {
    let (y, m, d) = civil(n);
    let yy = format!("{:04}", shown_year(y));
    let s = match (st, or) {
        (St::Iso, _) | (St::Xsd, _) => format!("{}-{:02}-{:02}", yy, m, d),
        (St::Sql, Or::Dmy) => format!("{:02}/{:02}/{}", d, m, yy),
        (St::Sql, _) => format!("{:02}/{:02}/{}", m, d, yy),
        (St::Ger, _) => format!("{:02}.{:02}.{}", d, m, yy),
        (St::Pg, Or::Dmy) => format!("{:02}-{:02}-{}", d, m, yy),
        (St::Pg, _) => format!("{:02}.{:02}.{}", m, d, yy),
    };
    if y <= 0 {
        s + " BC"
    } else {
        s
    }
}

pub fn print_ts(v: i64, st: St, or: Or) -> String {
    let (n, t) = split(v);
    let (y, m, d) = civil(n);
    let yy = format!("{:04}", shown_year(y));
    let c = clock(t);
    let s = match (st, or) {
        (St::Iso, _) => format!("{}-{:02}-{:02} {}", yy, m, d, c),
        (St::Xsd, _) => format!("{}-{:02}-{:02}T{}", yy, m, d, c),
        (St::Sql, Or::Dmy) => format!("{:02}/{:02}/{} {}", d, m, yy, c),
        (St::Sql, _) => format!("{:02}/{:02}/{} {}", m, d, yy, c),
        (St::Ger, _) => format!("{:02}.{:02}.{} {}", d, m, yy, c),
        (St::Pg, Or::Dmy) => format!(
            "{} {:02} {} {} {}",
            WDAY[dow(n) as usize],
            d,
            MON[m as usize - 1],
            c,
            yy
        ),
        (St::Pg, _) => format!(
            "{} {} {:02} {} {}",
            WDAY[dow(n) as usize],
            MON[m as usize - 1],
            d,
            c,
            yy
        ),
    };
    if y <= 0 {
        s + " BC"
    } else {
        s
    }
}

/// y, mon, day, h, mi, s, us of an interval, truncating toward zero
pub fn iv_fields(v: Iv) -> (i64, i64, i64, i64, i64, i64, i64) {
    let t = v.t as i128;
    (
        (v.m / 12) as i64,
        (v.m % 12) as i64,
        v.d as i64,
        (t / HOUR as i128) as i64,
        (t / MINUTE as i128 % 60) as i64,
        (t / SEC as i128 % 60) as i64,
        (t % SEC as i128) as i64,
    )
}

pub fn iv_printable(v: Iv) -> bool {
    let h = v.t / HOUR;
    h >= i32::MIN as i64 && h <= i32::MAX as i64
}

fn plural(n: i64, word: &str) -> String {
    if n == 1 {
        format!("{} {}", n, word)
    } else {
        format!("{} {}s", n, word)
    }
}

pub fn print_iv(v: Iv, st: Is) -> String {
    let (y, mo, d, h, mi, s, us) = iv_fields(v);
    let tneg = v.t < 0;
    let (ah, am, asec, aus) = (h.abs(), mi.abs(), s.abs(), us.abs());
    let mut o = String::new();
    match st {
        Is::Sql => {
            let neg = v.m < 0 || v.d < 0 || v.t < 0;
            let pos = v.m > 0 || v.d > 0 || v.t > 0;
            let ym = v.m != 0;
            let dt = v.d != 0 || v.t != 0;
            if !neg && !pos {
                return "0".into();
            }
            let hms = format!("{}:{:02}:{:02}{}", ah, am, asec, frac(aus));
            if (neg && pos) || (ym && dt) {
                let sg = |b: bool| if b { '-' } else { '+' };
                let _ = write!(
                    o,
                    "{}{}-{} {}{} {}{}",
                    sg(v.m < 0),
                    y.abs(),
                    mo.abs(),
                    sg(v.d < 0),
                    d.abs(),
                    sg(tneg),
                    hms
                );
            } else {
                if neg {
                    o.push('-');
                }
                if ym {
                    let _ = write!(o, "{}-{}", y.abs(), mo.abs());
                } else if v.d != 0 {
                    let _ = write!(o, "{} {}", d.abs(), hms);
                } else {
                    o.push_str(&hms);
                }
            }
        }
        Is::Iso => {
            if v.m == 0 && v.d == 0 && v.t == 0 {
                return "PT0S".into();
            }
            o.push('P');
            for (n, c) in [(y, 'Y'), (mo, 'M'), (d, 'D')] {
                if n != 0 {
                    let _ = write!(o, "{}{}", n, c);
                }
            }
            if v.t != 0 {
                o.push('T');
                for (n, c) in [(h, 'H'), (mi, 'M')] {
                    if n != 0 {
                        let _ = write!(o, "{}{}", n, c);
                    }
                }
                if s != 0 || us != 0 {
                    let _ = write!(o, "{}{}{}S", if tneg { "-" } else { "" }, asec, frac(aus));
                }
            }
        }
        Is::Pg => {
            let mut parts: Vec<String> = vec![];
            let mut prev_neg = false;
            for (n, w) in [(y, "year"), (mo, "mon"), (d, "day")] {
                if n != 0 {
                    let plus = if prev_neg && n > 0 { "+" } else { "" };
                    parts.push(format!("{}{}", plus, plural(n, w)));
                    prev_neg = n < 0;
                }
            }
            if parts.is_empty() || v.t != 0 {
                let sign = if tneg {
                    "-"
                } else if prev_neg {
                    "+"
                } else {
                    ""
                };
                parts.push(format!("{}{:02}:{:02}:{:02}{}", sign, ah, am, asec, frac(aus)));
            }
            o = parts.join(" ");
        }
        Is::Verbose => {
            let mut parts: Vec<String> = vec![];
            let first_neg = [y, mo, d, h, mi].iter().find(|x| **x != 0).map(|x| *x < 0);
            let before = first_neg.unwrap_or(v.t < 0);
            for (n, w) in [(y, "year"), (mo, "mon"), (d, "day"), (h, "hour"), (mi, "min")] {
                if n != 0 {
                    let n = if before { -n } else { n };
                    parts.push(plural(n, w));
                }
            }
            if s != 0 || us != 0 {
                let neg = tneg != before;
                parts.push(format!(
                    "{}{}{} {}",
                    if neg { "-" } else { "" },
                    asec,
                    frac(aus),
                    if asec == 1 && aus == 0 { "sec" } else { "secs" }
                ));
            }
            if parts.is_empty() {
                return "@ 0".into();
            }
            o = format!("@ {}", parts.join(" "));
            if before {
                o.push_str(" ago");
            }
        }
    }
    o
}

// ---- arithmetic -----------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want<T> {
    /// must be Ok with this value
    Exact(T),
    /// must be an error
    Error,
    /// either this value or an error (an intermediate leaves the range)
    Either(T),
}

/// months, then days, then time
pub fn add_iv(t: i64, v: Iv) -> Want<i64> {
    let (n, tod) = split(t);
    let (y, m, d) = civil(n);
    let mm = y * 12 + (m - 1) + v.m as i64;
    let (y2, m2) = (mm.div_euclid(12), mm.rem_euclid(12) + 1);
    let d2 = d.min(mdays(y2, m2));
    let n2 = day_of(y2, m2, d2);
    let step1 = n2 as i128 * DAY as i128 + tod as i128;
    let step2 = step1 + v.d as i128 * DAY as i128;
    let fin = step2 + v.t as i128;
    if !t_ok(fin) {
        Want::Error
    } else if t_ok(step1) && t_ok(step2) {
        Want::Exact(fin as i64)
    } else {
        Want::Either(fin as i64)
    }
}

/// calendar difference a - b
pub fn age(a: i64, b: i64) -> Iv {
    let neg = a < b;
    let (early, late) = if neg { (a, b) } else { (b, a) };
    let (n1, t1) = split(early);
    let (n2, t2) = split(late);
    let (y1, m1, d1) = civil(n1);
    let (y2, m2, d2) = civil(n2);
    let mut months = (y2 - y1) * 12 + (m2 - m1);
    let mut days = d2 - d1;
    let mut time = t2 - t1;
    if time < 0 {
        time += DAY;
        days -= 1;
    }
    if days < 0 {
        days += mdays(y1, m1);
        months -= 1;
    }
    let s = if neg { -1 } else { 1 };
    Iv::new((months * s) as i32, (days * s) as i32, time * s)
}

pub fn round_to(v: i64, prec: u32) -> i128 {
    // nearest multiple of 10^(6-prec) microseconds, ties away from zero
    let unit = 10i128.pow(6 - prec);
    let a = (v as i128).abs();
    let (q, r) = (a / unit, a % unit);
    let q = if r * 2 >= unit { q + 1 } else { q };
    q * unit * if v < 0 { -1 } else { 1 }
}

// ---- units ----------------------------------------------------------------

use pgdatetime::DateUnit;

pub const UNITS: [DateUnit; 23] = [
    DateUnit::Delta,
    DateUnit::Second,
    DateUnit::Minute,
    DateUnit::Hour,
    DateUnit::Day,
    DateUnit::Week,
    DateUnit::Month,
    DateUnit::Quarter,
    DateUnit::Year,
    DateUnit::Decade,
    DateUnit::Century,
    DateUnit::MilliSec,
    DateUnit::MicroSec,
    DateUnit::JULIAN,
    DateUnit::Dow,
    DateUnit::IsoDow,
    DateUnit::Doy,
    DateUnit::Tz,
    DateUnit::TzMinute,
    DateUnit::TzHour,
    DateUnit::Millennium,
    DateUnit::IsoYear,
    DateUnit::Epoch,
];

/// start of the unit containing a timestamp, as an unbounded number; None: unit does not apply
pub fn trunc_ts(v: i64, u: DateUnit) -> Option<i128> {
    let (n, t) = split(v);
    let (y, m, _) = civil(n);
    let at = |y: i64, m: i64| day_of(y, m, 1) as i128 * DAY as i128;
    Some(match u {
        DateUnit::MicroSec => v as i128,
        DateUnit::MilliSec => (v - t % 1000) as i128,
        DateUnit::Second => (v - t % SEC) as i128,
        DateUnit::Minute => (v - t % MINUTE) as i128,
        DateUnit::Hour => (v - t % HOUR) as i128,
        DateUnit::Day => (v - t) as i128,
        DateUnit::Week => (n - (isodow(n) - 1)) as i128 * DAY as i128,
        DateUnit::Month => at(y, m),
        DateUnit::Quarter => at(y, (m - 1) / 3 * 3 + 1),
        DateUnit::Year => at(y, 1),
        DateUnit::Decade => at(y.div_euclid(10) * 10, 1),
        DateUnit::Century => at((y - 1).div_euclid(100) * 100 + 1, 1),
        DateUnit::Millennium => at((y - 1).div_euclid(1000) * 1000 + 1, 1),
        _ => return None,
    })
}

fn block(y: i64, size: i64) -> i64 {
    // 1st century is years 1..=100; the one before is -1
    if y > 0 {
        (y + size - 1) / size
    } else {
        (y - 1).div_euclid(size).min(-1)
    }
}

/// exact field as (numerator, denominator)
pub fn part_ts(v: i64, u: DateUnit) -> Option<(i128, i64)> {
    let (n, t) = split(v);
    let (y, m, d) = civil(n);
    let int = |x: i64| Some((x as i128, 1));
    match u {
        DateUnit::MicroSec => int(t % MINUTE),
        DateUnit::MilliSec => Some(((t % MINUTE) as i128, 1000)),
        DateUnit::Second => Some(((t % MINUTE) as i128, SEC)),
        DateUnit::Minute => int(t / MINUTE % 60),
        DateUnit::Hour => int(t / HOUR),
        DateUnit::Day => int(d),
        DateUnit::Month => int(m),
        DateUnit::Quarter => int((m - 1) / 3 + 1),
        DateUnit::Week => int(iso_week(n).1),
        DateUnit::Year => int(no_zero_year(y)),
        DateUnit::Decade => int(y.div_euclid(10)),
        DateUnit::Century => int(block(y, 100)),
        DateUnit::Millennium => int(block(y, 1000)),
        DateUnit::JULIAN => Some((
            (n as i128 + 2_451_545) * DAY as i128 + t as i128,
            DAY,
        )),
        DateUnit::IsoYear => int(no_zero_year(iso_week(n).0)),
        DateUnit::Dow => int(dow(n)),
        DateUnit::IsoDow => int(isodow(n)),
        DateUnit::Doy => int(doy(n)),
        _ => None,
    }
}
