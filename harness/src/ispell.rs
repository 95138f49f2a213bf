//! Spelling intervals: quantities go in, text comes out; the exact sum of the
//! quantities is computed beside it in integers.

use crate::core::Rng;
use crate::iv::Iv;
use crate::model::*;
use crate::spell::{p, Gap, Piece};

/// fractions of a microsecond are counted in 1e-7 us
pub const U: i128 = 10_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Unit {
    Us,
    Ms,
    S,
    Min,
    H,
    D,
    W,
    Mon,
    Y,
    Dec,
    Cent,
    Mil,
}

pub const ALL_UNITS: [Unit; 12] = [
    Unit::Us,
    Unit::Ms,
    Unit::S,
    Unit::Min,
    Unit::H,
    Unit::D,
    Unit::W,
    Unit::Mon,
    Unit::Y,
    Unit::Dec,
    Unit::Cent,
    Unit::Mil,
];

impl Unit {
    pub fn words(self) -> &'static [&'static str] {
        match self {
            Unit::Us => &["us", "usec", "usecs", "usecond", "useconds", "microsecond", "microseconds"],
            Unit::Ms => &["ms", "msec", "msecs", "msecond", "mseconds", "millisecond", "milliseconds"],
            Unit::S => &["s", "sec", "secs", "second", "seconds"],
            Unit::Min => &["m", "min", "mins", "minute", "minutes"],
            Unit::H => &["h", "hr", "hrs", "hour", "hours"],
            Unit::D => &["d", "day", "days"],
            Unit::W => &["w", "week", "weeks"],
            Unit::Mon => &["mon", "mons", "month", "months"],
            Unit::Y => &["y", "yr", "yrs", "year", "years"],
            Unit::Dec => &["dec", "decs", "decade", "decades"],
            Unit::Cent => &["c", "cent", "century", "centuries"],
            Unit::Mil => &["mil", "mils", "millennium", "millennia"],
        }
    }
    fn bit(self) -> u32 {
        1 << self as u32
    }
    /// groups that add into the same whole-number field
    pub fn group(self) -> u32 {
        match self {
            Unit::Us | Unit::Ms | Unit::S => 1,
            Unit::Min => 2,
            Unit::H => 4,
            Unit::D | Unit::W => 8,
            Unit::Mon => 16,
            _ => 32,
        }
    }
    /// groups a fraction of the unit is carried into
    pub fn carries(self) -> u32 {
        match self {
            Unit::Us | Unit::Ms | Unit::S | Unit::Min | Unit::H | Unit::D => 1,
            Unit::W | Unit::Mon => 9,
            _ => 16,
        }
    }
}

/// unsigned decimal number
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub int: i64,
    pub fr: i64,
    pub nd: u32,
}

impl Num {
    pub fn text(&self) -> String {
        if self.nd == 0 {
            format!("{}", self.int)
        } else {
            format!("{}.{:0w$}", self.int, self.fr, w = self.nd as usize)
        }
    }
}

/// exact sum of quantities
#[derive(Clone, Copy, Debug, Default)]
pub struct Sum {
    pub m: i128,
    pub d: i128,
    /// 1e-7 microseconds
    pub t: i128,
    /// number of contributions that were rounded to the microsecond
    pub rounded: i128,
    /// sum of absolute whole-number contributions per group
    pub mass: [i128; 6],
}

impl Sum {
    pub fn add(&mut self, neg: bool, n: &Num, u: Unit) {
        let sg: i128 = if neg { -1 } else { 1 };
        let int = n.int as i128;
        let fr = n.fr as i128;
        let den = 10i128.pow(n.nd);
        let us = |x: i128| x * U; // microseconds
        let carry_t = |num: i128, unit_us: i128| num * unit_us * U / den; // exact: nd <= 7
        let gi = u.group().trailing_zeros() as usize;
        let (mut m, mut d, mut t) = (0i128, 0i128, 0i128);
        match u {
            Unit::Us => t = us(int) + carry_t(fr, 1),
            Unit::Ms => t = us(int * 1000) + carry_t(fr, 1000),
            Unit::S => t = us(int * SEC as i128) + carry_t(fr, SEC as i128),
            Unit::Min => t = us(int * MINUTE as i128) + carry_t(fr, MINUTE as i128),
            Unit::H => t = us(int * HOUR as i128) + carry_t(fr, HOUR as i128),
            Unit::D => {
                d = int;
                t = carry_t(fr, DAY as i128);
            }
            Unit::W => {
                d = int * 7 + fr * 7 / den;
                t = carry_t(fr * 7 % den, DAY as i128);
            }
            Unit::Mon => {
                m = int;
                d = fr * 30 / den;
                t = carry_t(fr * 30 % den, DAY as i128);
            }
            Unit::Y | Unit::Dec | Unit::Cent | Unit::Mil => {
                let k = match u {
                    Unit::Y => 12,
                    Unit::Dec => 120,
                    Unit::Cent => 1200,
                    _ => 12_000,
                };
                m = int * k + fr * k / den;
            }
        }
        if n.fr != 0 && t % U != 0 {
            self.rounded += 1;
        } else if n.fr != 0 && !matches!(u, Unit::Us | Unit::Ms | Unit::S | Unit::Y | Unit::Dec | Unit::Cent | Unit::Mil) {
            // carried in floating point
            self.rounded += 1;
        }
        self.m += sg * m;
        self.d += sg * d;
        self.t += sg * t;
        self.mass[gi] += (match u {
            Unit::Y => int,
            Unit::Dec => int * 10,
            Unit::Cent => int * 100,
            Unit::Mil => int * 1000,
            Unit::W => int * 7,
            Unit::Ms => int / 1000,
            Unit::Us => int / 1_000_000,
            _ => int,
        })
        .abs();
        self.mass[0] += t.abs() / U / SEC as i128 + 1;
        self.mass[3] += d.abs();
        self.mass[4] += if u == Unit::Mon || u.group() == 32 { m.abs() } else { 0 };
    }
    pub fn neg(&mut self) {
        self.m = -self.m;
        self.d = -self.d;
        self.t = -self.t;
    }
    /// does the value fit the fields of an interval?
    pub fn fits(&self) -> bool {
        let i = |x: i128| (i32::MIN as i128..=i32::MAX as i128).contains(&x);
        let t = self.t / U;
        i(self.m) && i(self.d) && (i64::MIN as i128..=i64::MAX as i128).contains(&t)
    }
    /// no partial sum of any order can leave 32 bits
    pub fn safe(&self) -> bool {
        let top = i32::MAX as i128;
        self.mass[0] < top && self.mass[1] <= top && self.mass[2] <= top && self.mass[3] <= top && self.mass[4] <= top && self.mass[5] <= top / 12
    }
    /// is v this sum, up to the rounding of each carried fraction?
    pub fn is(&self, v: Iv) -> bool {
        let tol = (U / 2 + U / 1000) * self.rounded;
        v.m as i128 == self.m && v.d as i128 == self.d && (v.t as i128 * U - self.t).abs() <= tol
    }
    pub fn show(&self) -> String {
        format!(
            "{} months {} days {} us (+-{} roundings)",
            self.m,
            self.d,
            self.t as f64 / U as f64,
            self.rounded
        )
    }
}

pub fn num(r: &mut Rng, big: bool) -> Num {
    let int = match r.below(9) {
        0 => 0,
        1 | 2 => r.range(1, 12),
        3 | 4 => r.range(0, 60),
        5 => r.range(0, 1000),
        6 => r.range(0, 100_000),
        7 if big => r.range(0, i32::MAX as i64),
        8 if big => i32::MAX as i64 - r.range(0, 3),
        _ => r.range(0, 400),
    };
    let nd = if r.chance(2, 3) { 0 } else { r.range(1, 7) as u32 };
    let top = 10i64.pow(nd) - 1;
    let fr = match r.below(6) {
        0 => 0,
        1 => top,
        2 if nd > 0 => r.range(1, 9) * 10i64.pow(nd - 1),
        3 if nd > 1 => 25 * 10i64.pow(nd - 2),
        _ => r.range(0, top),
    };
    Num { int, fr, nd }
}

pub struct Spelled {
    pub pieces: Vec<Piece>,
    pub sum: Sum,
    pub class: &'static str,
    /// explicit signs seen, and whether the first one is a leading minus
    pub lead_minus: bool,
    pub more_signs: bool,
    /// two quantities act on one whole-number group
    pub shared: bool,
    pub unitless: bool,
    pub ago: bool,
    /// magnitude sum, for a leading minus that negates everything
    pub abs_sum: Sum,
}

/// What a number without unit means: the last field of the range.
#[derive(Clone, Copy, Debug)]
pub struct Range {
    pub bits: i32,
    pub unit: Unit,
    pub ms: bool,
    pub name: &'static str,
}

pub const FULL: Range = Range { bits: 0x7FFF, unit: Unit::S, ms: false, name: "full" };
const Y: i32 = 1 << 2;
const M: i32 = 1 << 1;
const DD: i32 = 1 << 3;
const H: i32 = 1 << 10;
const MI: i32 = 1 << 11;
const S: i32 = 1 << 12;
pub const RANGES: [Range; 13] = [
    Range { bits: Y, unit: Unit::Y, ms: false, name: "year" },
    Range { bits: M, unit: Unit::Mon, ms: false, name: "month" },
    Range { bits: Y | M, unit: Unit::Mon, ms: false, name: "year to month" },
    Range { bits: DD, unit: Unit::D, ms: false, name: "day" },
    Range { bits: H, unit: Unit::H, ms: false, name: "hour" },
    Range { bits: MI, unit: Unit::Min, ms: false, name: "minute" },
    Range { bits: S, unit: Unit::S, ms: false, name: "second" },
    Range { bits: DD | H, unit: Unit::H, ms: false, name: "day to hour" },
    Range { bits: DD | H | MI, unit: Unit::Min, ms: false, name: "day to minute" },
    Range { bits: DD | H | MI | S, unit: Unit::S, ms: false, name: "day to second" },
    Range { bits: H | MI, unit: Unit::Min, ms: false, name: "hour to minute" },
    Range { bits: H | MI | S, unit: Unit::S, ms: false, name: "hour to second" },
    Range { bits: MI | S, unit: Unit::S, ms: true, name: "minute to second" },
];

pub fn typmod(range: &Range, precision: i32) -> i32 {
    (range.bits << 16) | (precision & 0xFFFF)
}

/// the value a range and precision leave of v; None: the precision is invalid
pub fn restrict(v: Iv, range: &Range, precision: Option<u32>) -> Iv {
    let b = range.bits;
    let mut v = v;
    if b != 0x7FFF {
        if b & (DD | H | MI | S) == 0 {
            v.d = 0;
            v.t = 0;
            if b & M == 0 {
                v.m = v.m / 12 * 12;
            }
        } else if b & (H | MI | S) == 0 {
            v.t = 0;
        } else if b & (MI | S) == 0 {
            v.t = v.t / HOUR * HOUR;
        } else if b & S == 0 {
            v.t = v.t / MINUTE * MINUTE;
        }
    }
    if let Some(p) = precision {
        v.t = round_to(v.t, p) as i64;
    }
    v
}

fn sign_pieces(r: &mut Rng, first: bool, g: Gap, neg: bool, plus: bool, text: String) -> Vec<Piece> {
    let mut v = vec![];
    let gap = if first { Gap::None } else { g };
    if neg || plus {
        v.push(p(gap, if neg { "-" } else { "+" }));
        v.push(p(if r.chance(1, 6) { Gap::Opt } else { Gap::None }, text));
    } else {
        v.push(p(gap, text));
    }
    v
}

/// A traditional interval text: unit quantities, a clock, a year-month
/// literal, a number without unit, "ago".
pub fn traditional(r: &mut Rng, range: &Range, big: bool) -> Spelled {
    let mut used = 0u32; // unit bits
    let mut sum = Sum::default();
    let mut abs_sum = Sum::default();
    let mut groups = 0u32;
    let mut shared = false;
    let mut pieces: Vec<Piece> = vec![];
    let mut signs: Vec<bool> = vec![]; // per quantity: (explicit sign)
    let mut lead_minus = false;
    let mut count = 0;
    let mut prev_alpha = false;
    let mut class = "unit words";
    let time_bits = Unit::H.bit() | Unit::Min.bit() | Unit::S.bit() | Unit::Ms.bit() | Unit::Us.bit();

    // plan of the items
    let want = r.range(1, 5);
    let clock = r.chance(1, 3);
    let ym = r.chance(1, 6);
    let mut plan: Vec<u8> = vec![]; // 0 unit, 1 clock, 2 year-month, 3 days before the clock
    for _ in 0..want {
        plan.push(0);
    }
    if ym {
        used |= Unit::Mon.bit() | Unit::Y.bit() | Unit::Dec.bit() | Unit::Cent.bit() | Unit::Mil.bit();
        let at = r.below(2) as usize * r.below(plan.len() as u64 + 1) as usize;
        if r.chance(1, 2) {
            plan.clear();
        }
        let at = at.min(plan.len());
        plan.insert(at, 2);
    }
    if clock {
        used |= time_bits;
        if r.chance(2, 5) {
            if !plan.is_empty() && r.chance(2, 3) {
                plan.truncate(if ym { plan.len() } else { 0 });
            }
            plan.push(3);
            plan.push(1);
            used |= Unit::D.bit();
        } else {
            let at = if r.chance(3, 4) { plan.len() } else { r.below(plan.len() as u64 + 1) as usize };
            plan.insert(at, 1);
        }
    }
    // a number without unit may end the text
    let unitless = !clock && r.chance(1, 5);
    let mut unitless_used = false;
    if unitless {
        let at = match range.unit {
            // leaves its own mask free for others
            u => used & u.bit() == 0,
        };
        if at {
            unitless_used = true;
            used |= range.unit.bit();
            if range.unit == Unit::S {
                // a fraction of seconds takes the smaller units too
                used |= Unit::Ms.bit() | Unit::Us.bit();
            }
            if r.chance(1, 2) {
                plan.clear();
                if ym {
                    plan.push(2);
                }
            }
            plan.push(4);
        }
    }
    if r.chance(1, 8) {
        pieces.push(p(Gap::None, "@"));
    }
    for (k, what) in plan.clone().into_iter().enumerate() {
        let neg = r.chance(1, 4);
        let plus = !neg && r.chance(1, 8);
        let g = if prev_alpha || !pieces.is_empty() { Gap::Req } else { Gap::None };
        let g = if pieces.len() == 1 && pieces[0].1 == "@" { Gap::Opt } else { g };
        let first = pieces.is_empty();
        let mut touched = 0u32;
        match what {
            0 => {
                let u = *r.pick(&ALL_UNITS);
                if used & u.bit() != 0 {
                    continue;
                }
                let mut n = num(r, big);
                if u == Unit::S && n.fr != 0 && used & (Unit::Ms.bit() | Unit::Us.bit()) != 0 {
                    n.fr = 0;
                    n.nd = 0;
                }
                used |= u.bit();
                if u == Unit::S && n.fr != 0 {
                    used |= Unit::Ms.bit() | Unit::Us.bit();
                }
                sum.add(neg, &n, u);
                abs_sum.add(false, &n, u);
                if n.int != 0 {
                    touched |= u.group();
                }
                if n.fr != 0 {
                    touched |= u.carries();
                }
                let mut txt = n.text();
                if !neg && !plus && n.int == 0 && n.nd > 0 && r.chance(1, 6) {
                    txt = txt[1..].to_string();
                }
                pieces.extend(sign_pieces(r, first, g, neg, plus, txt));
                let w = *r.pick(u.words());
                pieces.push(p(if r.chance(1, 3) { Gap::Opt } else { Gap::Req }, w));
                if k + 1 < plan.len() && r.chance(1, 12) {
                    pieces.push(p(Gap::Opt, ","));
                }
                prev_alpha = true;
                if n.fr != 0 {
                    class = "unit words with fractions";
                }
            }
            1 => {
                let big_h = r.chance(1, 6);
                let h = if big_h { num(r, big).int } else { r.range(0, 23) };
                let mi = r.range(0, 59);
                let s = if r.chance(1, 50) { 60 } else { r.range(0, 59) };
                let nd = if r.chance(1, 2) { 0 } else { r.range(1, 7) as u32 };
                let fr = if nd == 0 { 0 } else { r.range(0, 10i64.pow(nd) - 1) };
                let f = if nd > 0 { format!(".{:0w$}", fr, w = nd as usize) } else { String::new() };
                let w2 = |r: &mut Rng, v: i64| if r.chance(1, 4) { format!("{}", v) } else { format!("{:02}", v) };
                let (h, mi, s, fr, nd, txt) = match r.below(6) {
                    0 if range.ms => (0, h.min(59), mi, 0, 0, format!("{}:{}", w2(r, h.min(59)), w2(r, mi))),
                    0 => (h, mi, 0, 0, 0, format!("{}:{}", w2(r, h), w2(r, mi))),
                    1 if nd > 0 => (0, h.min(59), mi, fr, nd, format!("{}:{}{}", w2(r, h.min(59)), w2(r, mi), f)),
                    _ => (h, mi, s, fr, nd, format!("{}:{}:{}{}", w2(r, h), w2(r, mi), w2(r, s), f)),
                };
                for (x, u) in [(h, Unit::H), (mi, Unit::Min)] {
                    let n = Num { int: x, fr: 0, nd: 0 };
                    sum.add(neg, &n, u);
                    abs_sum.add(false, &n, u);
                    if x != 0 {
                        touched |= u.group();
                    }
                }
                let n = Num { int: s, fr, nd };
                sum.add(neg, &n, Unit::S);
                abs_sum.add(false, &n, Unit::S);
                if s != 0 || fr != 0 {
                    touched |= 1;
                }
                pieces.extend(sign_pieces(r, first, g, neg, plus, txt));
                prev_alpha = false;
                class = "clock and units";
            }
            2 => {
                let y = num(r, big).int;
                let mo = r.range(0, 11);
                let (ny, nm) = (Num { int: y, fr: 0, nd: 0 }, Num { int: mo, fr: 0, nd: 0 });
                for (n, u) in [(&ny, Unit::Y), (&nm, Unit::Mon)] {
                    sum.add(neg, n, u);
                    abs_sum.add(false, n, u);
                }
                touched |= 16 | 32;
                pieces.extend(sign_pieces(r, first, g, neg, plus, format!("{}-{}", y, mo)));
                prev_alpha = false;
                class = "year-month literal";
            }
            3 => {
                let mut n = num(r, big);
                if r.chance(2, 3) {
                    n.fr = 0;
                    n.nd = 0;
                }
                sum.add(neg, &n, Unit::D);
                abs_sum.add(false, &n, Unit::D);
                if n.int != 0 {
                    touched |= 8;
                }
                if n.fr != 0 {
                    touched |= 1;
                }
                pieces.extend(sign_pieces(r, first, g, neg, plus, n.text()));
                prev_alpha = false;
            }
            _ => {
                let n = num(r, big);
                let u = range.unit;
                sum.add(neg, &n, u);
                abs_sum.add(false, &n, u);
                if n.int != 0 {
                    touched |= u.group();
                }
                if n.fr != 0 {
                    touched |= u.carries();
                }
                pieces.extend(sign_pieces(r, first, g, neg, plus, n.text()));
                prev_alpha = false;
                class = "number without unit";
            }
        }
        if groups & touched != 0 {
            shared = true;
        }
        groups |= touched;
        if count == 0 {
            lead_minus = neg;
        } else if neg || plus {
            signs.push(true);
        }
        count += 1;
    }
    if count == 0 {
        let n = num(r, big);
        sum.add(false, &n, Unit::D);
        abs_sum.add(false, &n, Unit::D);
        let first = pieces.is_empty();
        pieces.extend(sign_pieces(r, first, Gap::Opt, false, false, n.text()));
        pieces.push(p(Gap::Opt, "days"));
    }
    let mut ago = false;
    if r.chance(1, 8) && !unitless_used {
        ago = true;
        pieces.push(p(Gap::Req, "ago"));
    }
    Spelled {
        pieces,
        sum,
        class: if ago { "ago" } else { class },
        lead_minus,
        more_signs: !signs.is_empty(),
        shared,
        unitless: unitless_used,
        ago,
        abs_sum,
    }
}

/// ISO 8601 text, its sum, class, and whether the compact date carries a fraction
pub fn iso(r: &mut Rng, big: bool) -> (String, Sum, &'static str, bool) {
    let mut s = String::from("P");
    let mut sum = Sum::default();
    match r.below(5) {
        0 | 1 | 2 => {
            let mut any = false;
            let mut class = "designators";
            let mut t = false;
            let repeat = r.chance(1, 10);
            for (c, u) in [
                ('Y', Unit::Y),
                ('M', Unit::Mon),
                ('W', Unit::W),
                ('D', Unit::D),
                ('H', Unit::H),
                ('M', Unit::Min),
                ('S', Unit::S),
            ] {
                let time = matches!(u, Unit::H | Unit::Min | Unit::S);
                let n_times = if r.chance(1, 2) { 1 + repeat as u32 * r.below(2) as u32 } else { 0 };
                for _ in 0..n_times {
                    if time && !t {
                        s.push('T');
                        t = true;
                    }
                    let n = num(r, big);
                    let neg = r.chance(1, 4);
                    if neg {
                        s.push('-');
                    }
                    s.push_str(&n.text());
                    s.push(c);
                    sum.add(neg, &n, u);
                    any = true;
                    if n.fr != 0 {
                        class = "designators with fractions";
                    }
                }
            }
            if !any {
                s.push_str("0D");
            }
            (s, sum, class, false)
        }
        3 => {
            // extended alternative format
            let w = |r: &mut Rng, v: i64, k: usize| if r.chance(1, 5) { format!("{}", v) } else { format!("{:0w$}", v, w = k) };
            let parts = r.range(0, 3);
            let tparts = if parts == 0 { r.range(1, 3) } else { r.range(0, 3) };
            let frac = |r: &mut Rng| {
                let nd = r.range(1, 7) as u32;
                (r.range(0, 10i64.pow(nd) - 1), nd)
            };
            let with_frac = r.chance(1, 3);
            let vals = [r.range(0, 9999), r.range(0, 99), r.range(0, 99), r.range(0, 99), r.range(0, 99), r.range(0, 99)];
            for (k, u) in [Unit::Y, Unit::Mon, Unit::D].into_iter().enumerate().take(parts as usize) {
                if k > 0 {
                    s.push('-');
                }
                let last = k as i64 + 1 == parts && tparts == 0;
                let (fr, nd) = if last && with_frac { frac(r) } else { (0, 0) };
                let n = Num { int: vals[k], fr, nd };
                s.push_str(&w(r, vals[k], if k == 0 { 4 } else { 2 }));
                if nd > 0 {
                    s.push_str(&format!(".{:0w$}", fr, w = nd as usize));
                }
                sum.add(false, &n, u);
            }
            if tparts > 0 {
                s.push('T');
                for (k, u) in [Unit::H, Unit::Min, Unit::S].into_iter().enumerate().take(tparts as usize) {
                    if k > 0 {
                        s.push(':');
                    }
                    let last = k as i64 + 1 == tparts;
                    let (fr, nd) = if last && with_frac { frac(r) } else { (0, 0) };
                    let n = Num { int: vals[3 + k], fr, nd };
                    s.push_str(&w(r, vals[3 + k], 2));
                    if nd > 0 {
                        s.push_str(&format!(".{:0w$}", fr, w = nd as usize));
                    }
                    sum.add(false, &n, u);
                }
            }
            (s, sum, "alternative form", false)
        }
        _ => {
            let v = [r.range(0, 9999), r.range(0, 99), r.range(0, 99), r.range(0, 99), r.range(0, 99), r.range(0, 99)];
            let mut dfrac = false;
            let date = r.chance(3, 4);
            let time = !date || r.chance(3, 4);
            if date {
                s.push_str(&format!("{:04}{:02}{:02}", v[0], v[1], v[2]));
                let mut n = Num { int: v[2], fr: 0, nd: 0 };
                if !time && r.chance(1, 3) {
                    n.nd = r.range(1, 7) as u32;
                    n.fr = r.range(0, 10i64.pow(n.nd) - 1);
                    s.push_str(&format!(".{:0w$}", n.fr, w = n.nd as usize));
                    dfrac = n.fr != 0;
                }
                sum.add(false, &Num { int: v[0], fr: 0, nd: 0 }, Unit::Y);
                sum.add(false, &Num { int: v[1], fr: 0, nd: 0 }, Unit::Mon);
                sum.add(false, &n, Unit::D);
            }
            if time {
                s.push_str(&format!("T{:02}{:02}{:02}", v[3], v[4], v[5]));
                let mut n = Num { int: v[5], fr: 0, nd: 0 };
                if r.chance(1, 3) {
                    n.nd = r.range(1, 7) as u32;
                    n.fr = r.range(0, 10i64.pow(n.nd) - 1);
                    s.push_str(&format!(".{:0w$}", n.fr, w = n.nd as usize));
                }
                sum.add(false, &Num { int: v[3], fr: 0, nd: 0 }, Unit::H);
                sum.add(false, &Num { int: v[4], fr: 0, nd: 0 }, Unit::Min);
                sum.add(false, &n, Unit::S);
            }
            (s, sum, "compact alternative form", dfrac)
        }
    }
}
