//! Every public operation as one callable, for histories, differentials and
//! sanitizer workloads.

use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};
use crate::model::*;
use crate::props::*;
use pgdatetime::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    D(i64),
    T(i64),
    M(i64),
    I(Iv),
    N(i128),
    /// bits; one NaN
    F(u64),
    S(String),
    B(bool),
    O(i8),
    Nil,
    Err,
    Panic(String),
}

impl Out {
    pub fn digest(&self) -> u32 {
        let h = match self {
            Out::D(x) => hash64(&[1, *x as u64]),
            Out::T(x) => hash64(&[2, *x as u64]),
            Out::M(x) => hash64(&[3, *x as u64]),
            Out::I(v) => hash64(&[4, v.key()]),
            Out::N(x) => hash64(&[5, *x as u64, (*x >> 64) as u64]),
            Out::F(x) => hash64(&[6, *x]),
            Out::S(s) => hash64(&[7, hash_str(s)]),
            Out::B(x) => hash64(&[8, *x as u64]),
            Out::O(x) => hash64(&[9, *x as u64]),
            Out::Nil => hash64(&[10]),
            Out::Err => hash64(&[11]),
            Out::Panic(_) => hash64(&[12]),
        };
        (h ^ (h >> 32)) as u32
    }
    /// a supported value
    pub fn in_range(&self) -> bool {
        match self {
            Out::D(x) => *x == DNEG as i64 || *x == DPOS as i64 || d_ok(*x),
            Out::T(x) => *x == TNEG || *x == TPOS || t_ok(*x as i128),
            Out::M(x) => (0..=DAY).contains(x),
            _ => true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: usize,
    pub d: [i64; 2],
    pub t: [i64; 2],
    pub m: [i64; 2],
    pub v: [Iv; 2],
    pub n: [i32; 6],
    pub f: f64,
    pub unit: DateUnit,
    pub epoch: bool,
    pub or: Or,
    pub st: St,
    pub is: Is,
    pub typmod: i32,
    pub text: String,
}

impl Call {
    pub fn name(&self) -> &'static str {
        OPS[self.op].0
    }
    pub fn run(&self) -> Out {
        (OPS[self.op].2)(self)
    }
    pub fn guarded(&self) -> Out {
        match guarded(|| self.run()) {
            Ok(o) => o,
            Err(p) => Out::Panic(p),
        }
    }
    fn ty(&self) -> FieldType {
        if self.epoch {
            FieldType::Epoch
        } else {
            FieldType::Unit
        }
    }
    /// what the operation sees
    pub fn show(&self) -> String {
        let mut s = format!("{}(", self.name());
        for c in OPS[self.op].1.chars() {
            let a = match c {
                'd' => show_d(self.d[0]),
                'e' => show_d(self.d[1]),
                't' => show_t(self.t[0]),
                'u' => show_t(self.t[1]),
                'm' => format!("time {} ({})", clock(self.m[0]), self.m[0]),
                'w' => format!("time {} ({})", clock(self.m[1]), self.m[1]),
                'v' => format!("{:?}", self.v[0]),
                'x' => format!("{:?}", self.v[1]),
                'n' => format!("{}", self.n[0]),
                'N' => format!("{:?}", self.n),
                'f' => format!("{:?} ({:#x})", self.f, self.f.to_bits()),
                'U' => format!("{:?} {:?}", self.ty(), self.unit),
                'O' => format!("{:?}", self.or),
                'S' => format!("{:?}", self.st),
                'I' => format!("{:?}", self.is),
                'T' => format!("typmod {}", self.typmod),
                '"' => format!("{:?}", self.text),
                _ => String::new(),
            };
            s.push_str(&a);
            s.push_str(", ");
        }
        s.push(')');
        s
    }
}

fn rd_<T>(r: Result<T, DateTimeError>, f: impl Fn(T) -> Out) -> Out {
    match r {
        Ok(x) => f(x),
        Err(_) => Out::Err,
    }
}
fn od(x: Date) -> Out {
    Out::D(dv(x))
}
fn ot(x: Timestamp) -> Out {
    Out::T(tv(x))
}
fn om(x: Time) -> Out {
    Out::M(tmv(x))
}
fn oi(x: Interval) -> Out {
    Out::I(rd(x))
}
fn of(x: f64) -> Out {
    Out::F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}
fn oo(x: Ordering) -> Out {
    Out::O(x as i8)
}
fn hash<T: Hash>(x: T) -> Out {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    Out::N(s.finish() as i128)
}

type F = fn(&Call) -> Out;

/// name, argument letters, call
pub const OPS: &[(&str, &str, F)] = &[
    ("Date::try_from_ymd", "N", |c| rd_(Date::try_from_ymd(c.n[0], c.n[1], c.n[2]), od)),
    ("Date::add_days", "dn", |c| rd_(d(c.d[0]).add_days(c.n[0]), od)),
    ("Date::sub_days", "dn", |c| rd_(d(c.d[0]).sub_days(c.n[0]), od)),
    ("Date::add_interval", "dv", |c| rd_(d(c.d[0]).add_interval(mk(c.v[0])), ot)),
    ("Date::sub_interval", "dv", |c| rd_(d(c.d[0]).sub_interval(mk(c.v[0])), ot)),
    ("Date::add_time", "dm", |c| rd_(d(c.d[0]).add_time(tm(c.m[0])), ot)),
    ("Date::sub_date", "de", |c| rd_(d(c.d[0]).sub_date(d(c.d[1])), |x| Out::N(x as i128))),
    ("Date::format", "dSO", |c| rd_(d(c.d[0]).format(c.st.real(), c.or.real()), Out::S)),
    ("Date::date_part", "dU", |c| rd_(d(c.d[0]).date_part(c.ty(), c.unit), of)),
    ("Date::truncate", "dU", |c| rd_(d(c.d[0]).truncate(c.ty(), c.unit), od)),
    ("Date::is_finite", "d", |c| Out::B(d(c.d[0]).is_finite())),
    ("Date::cmp", "de", |c| oo(d(c.d[0]).cmp(&d(c.d[1])))),
    ("Date::hash", "d", |c| hash(d(c.d[0]))),
    ("Date from Timestamp", "t", |c| rd_(Date::try_from(ts(c.t[0])), od)),
    ("Date::try_from_str", "\"O", |c| rd_(Date::try_from_str(&c.text, c.or.real()), od)),
    ("Time::try_from_hms", "Nf", |c| rd_(Time::try_from_hms(c.n[0], c.n[1], c.f), om)),
    ("Time::add_interval", "mv", |c| om(tm(c.m[0]).add_interval(mk(c.v[0])))),
    ("Time::sub_interval", "mv", |c| om(tm(c.m[0]).sub_interval(mk(c.v[0])))),
    ("Time::sub_time", "mw", |c| oi(tm(c.m[0]).sub_time(tm(c.m[1])))),
    ("Time::format", "mS", |c| rd_(tm(c.m[0]).format(c.st.real()), Out::S)),
    ("Time::date_part", "mU", |c| rd_(tm(c.m[0]).date_part(c.ty(), c.unit), of)),
    ("Time::truncate", "mU", |c| rd_(tm(c.m[0]).truncate(c.ty(), c.unit), om)),
    ("Time::cmp", "mw", |c| oo(tm(c.m[0]).cmp(&tm(c.m[1])))),
    ("Time from Interval", "v", |c| om(Time::from(mk(c.v[0])))),
    ("Time from Timestamp", "t", |c| rd_(<Option<Time>>::try_from(ts(c.t[0])), |x| x.map_or(Out::Nil, om))),
    ("Time::try_from_str", "\"TO", |c| rd_(Time::try_from_str(&c.text, c.typmod, c.or.real()), om)),
    ("Timestamp::try_from_ymd_hms", "Nf", |c| rd_(Timestamp::try_from_ymd_hms(c.n[0], c.n[1], c.n[2], c.n[3], c.n[4], c.f), ot)),
    ("Timestamp::add_interval", "tv", |c| rd_(ts(c.t[0]).add_interval(mk(c.v[0])), ot)),
    ("Timestamp::sub_interval", "tv", |c| rd_(ts(c.t[0]).sub_interval(mk(c.v[0])), ot)),
    ("Timestamp::add_time", "tm", |c| rd_(ts(c.t[0]).add_time(tm(c.m[0])), ot)),
    ("Timestamp::sub_time", "tm", |c| rd_(ts(c.t[0]).sub_time(tm(c.m[0])), ot)),
    ("Timestamp::sub_date", "td", |c| rd_(ts(c.t[0]).sub_date(d(c.d[0])), oi)),
    ("Timestamp::sub_timestamp", "tu", |c| rd_(ts(c.t[0]).sub_timestamp(ts(c.t[1])), oi)),
    ("Timestamp::age", "tu", |c| rd_(ts(c.t[0]).age(ts(c.t[1])), oi)),
    ("Timestamp::format", "tSO", |c| rd_(ts(c.t[0]).format(c.st.real(), c.or.real()), Out::S)),
    ("Timestamp::date_part", "tU", |c| rd_(ts(c.t[0]).date_part(c.ty(), c.unit), of)),
    ("Timestamp::truncate", "tU", |c| rd_(ts(c.t[0]).truncate(c.ty(), c.unit), ot)),
    ("Timestamp::cmp", "tu", |c| oo(ts(c.t[0]).cmp(&ts(c.t[1])))),
    ("Timestamp::is_finite", "t", |c| Out::B(ts(c.t[0]).is_finite())),
    ("Timestamp from Date", "d", |c| rd_(Timestamp::try_from(d(c.d[0])), ot)),
    ("Timestamp::try_from_str", "\"TO", |c| rd_(Timestamp::try_from_str(&c.text, c.typmod, c.or.real()), ot)),
    ("Interval::try_from_ymwd_hms", "Nf", |c| rd_(Interval::try_from_ymwd_hms(c.n[0], c.n[1], c.n[2], c.n[3], c.n[4], c.n[5], c.f), oi)),
    ("Interval::add_interval", "vx", |c| rd_(mk(c.v[0]).add_interval(mk(c.v[1])), oi)),
    ("Interval::sub_interval", "vx", |c| rd_(mk(c.v[0]).sub_interval(mk(c.v[1])), oi)),
    ("Interval::negate", "v", |c| rd_(mk(c.v[0]).negate(), oi)),
    ("Interval::justify_hours", "v", |c| oi(mk(c.v[0]).justify_hours())),
    ("Interval::justify_days", "v", |c| oi(mk(c.v[0]).justify_days())),
    ("Interval::justify_interval", "v", |c| oi(mk(c.v[0]).justify_interval())),
    ("Interval::mul_f64", "vf", |c| rd_(mk(c.v[0]).mul_f64(c.f), oi)),
    ("Interval::div_f64", "vf", |c| rd_(mk(c.v[0]).div_f64(c.f), oi)),
    ("Interval::format", "vI", |c| rd_(mk(c.v[0]).format(c.is.real()), Out::S)),
    ("Interval::date_part", "vU", |c| rd_(mk(c.v[0]).date_part(c.ty(), c.unit), of)),
    ("Interval::truncate", "vU", |c| rd_(mk(c.v[0]).truncate(c.ty(), c.unit), oi)),
    ("Interval::cmp", "vx", |c| oo(mk(c.v[0]).cmp(&mk(c.v[1])))),
    ("Interval::eq", "vx", |c| Out::B(mk(c.v[0]) == mk(c.v[1]))),
    ("Interval to i128", "v", |c| Out::N(i128::from(mk(c.v[0])))),
    ("Interval from Time", "m", |c| oi(Interval::from(tm(c.m[0])))),
    ("Interval +", "vx", |c| {
        // documented to be unchecked: only sums that fit
        let (a, b) = (c.v[0], c.v[1]);
        if a.m.checked_add(b.m).is_some() && a.d.checked_add(b.d).is_some() && a.t.checked_add(b.t).is_some() {
            oi(mk(a) + mk(b))
        } else {
            Out::Nil
        }
    }),
    ("Interval::try_from_str", "\"TI", |c| rd_(Interval::try_from_str(&c.text, c.typmod, c.is.real()), oi)),
];

pub fn op(name: &str) -> usize {
    OPS.iter().position(|o| o.0 == name).unwrap_or_else(|| panic!("no operation {}", name))
}

pub fn is_parse(op: usize) -> bool {
    OPS[op].1.starts_with('"')
}

fn ymd_arg(r: &mut Rng, k: usize) -> i32 {
    match (r.below(3), k) {
        (0, _) => gen::i32_any(r),
        (_, 0) => r.range(-4800, 300_000) as i32,
        (_, 1) => r.range(-1, 14) as i32,
        (_, 2) => r.range(-1, 33) as i32,
        (_, 3) => r.range(-1, 26) as i32,
        _ => r.range(-1, 62) as i32,
    }
}

/// valid values, arbitrary arguments
pub fn call(r: &mut Rng, op: usize) -> Call {
    let a = OPS[op].1;
    let has = |c: char| a.contains(c);
    let day = |r: &mut Rng| match r.below(20) {
        0 => DNEG as i64,
        1 => DPOS as i64,
        _ => gen::day(r),
    };
    let stamp = |r: &mut Rng| if r.chance(1, 12) { gen::ts_inf(r) } else { gen::ts(r) };
    let tod = |r: &mut Rng| if r.chance(1, 25) { DAY } else { gen::tod(r) };
    let span = |r: &mut Rng| {
        if r.chance(1, 4) {
            Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r))
        } else {
            gen::iv(r)
        }
    };
    let mut c = Call {
        op,
        d: [0; 2],
        t: [0; 2],
        m: [0; 2],
        v: [Iv::new(0, 0, 0); 2],
        n: [0; 6],
        f: 0.0,
        unit: *r.pick(&UNITS),
        epoch: r.chance(1, 6),
        or: *r.pick(&ORDERS),
        st: *r.pick(&STYLES),
        is: *r.pick(&ISTYLES),
        typmod: -1,
        text: String::new(),
    };
    if has('d') {
        c.d[0] = day(r);
    }
    if has('e') {
        c.d[1] = if r.chance(1, 4) { c.d[0] } else { day(r) };
    }
    if has('t') {
        c.t[0] = stamp(r);
    }
    if has('u') {
        c.t[1] = if r.chance(1, 4) { c.t[0] } else { stamp(r) };
    }
    if has('m') {
        c.m[0] = tod(r);
    }
    if has('w') {
        c.m[1] = if r.chance(1, 4) { c.m[0] } else { tod(r) };
    }
    if has('v') {
        c.v[0] = span(r);
    }
    if has('v') && (has('t') || has('d')) && r.chance(1, 6) {
        let from = if has('t') { c.t[0] } else { c.d[0].saturating_mul(DAY) };
        c.v[0] = gen::landing(r, from);
        if r.chance(1, 2) {
            // for a subtraction
            c.v[0] = Iv::new(0, c.v[0].d.wrapping_neg(), c.v[0].t.wrapping_neg());
        }
    }
    if has('x') {
        c.v[1] = if r.chance(1, 4) { c.v[0] } else { span(r) };
    }
    if has('n') {
        c.n[0] = gen::i32_any(r);
        if r.chance(1, 3) && d_ok(c.d[0]) {
            let edge = *r.pick(&[DMIN, DMAX, i32::MIN as i64, i32::MAX as i64]);
            c.n[0] = (edge - c.d[0] + r.range(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
        }
    }
    if has('N') {
        for k in 0..6 {
            c.n[k] = ymd_arg(r, k);
        }
    }
    if has('f') {
        c.f = if r.chance(1, 2) { gen::f64_any(r) } else { r.range(-2_000_000, 62_000_000) as f64 / 1e6 };
    }
    if has('T') {
        c.typmod = match r.below(4) {
            0 => -1,
            1 => r.range(0, 6) as i32,
            2 => gen::i32_any(r),
            _ => {
                let rg = r.pick(&crate::ispell::RANGES);
                crate::ispell::typmod(rg, r.range(0, 6) as i32)
            }
        };
    }
    if has('"') {
        c.text = crate::soup::text(r, c.or);
    }
    c
}

/// A call that shares most of its operands with another one.
pub fn vary(r: &mut Rng, c: &Call) -> Call {
    let mut n = c.clone();
    let args = OPS[c.op].1;
    match r.below(8) {
        // another operation on the same operands
        0 => {
            let other: Vec<usize> = (0..OPS.len()).filter(|&k| k != c.op && OPS[k].1.chars().all(|a| args.contains(a) || "SOIUTnfexuw".contains(a)) && is_parse(k) == is_parse(c.op)).collect();
            if !other.is_empty() {
                n.op = *r.pick(&other);
                let f = call(r, n.op);
                if n.text.is_empty() {
                    n.text = f.text;
                }
                // operands the first one does not have
                for (k, a) in OPS[n.op].1.chars().enumerate() {
                    let _ = k;
                    if !args.contains(a) {
                        match a {
                            'e' => n.d[1] = f.d[1],
                            'u' => n.t[1] = f.t[1],
                            'w' => n.m[1] = f.m[1],
                            'x' => n.v[1] = f.v[1],
                            'n' => n.n = f.n,
                            'f' => n.f = f.f,
                            'T' => n.typmod = f.typmod,
                            _ => {}
                        }
                    }
                }
            }
        }
        // another setting
        1 | 2 => {
            n.unit = *r.pick(&UNITS);
            n.epoch = r.chance(1, 6);
            n.or = *r.pick(&ORDERS);
            n.st = *r.pick(&STYLES);
            n.is = *r.pick(&ISTYLES);
            if args.contains('T') && r.chance(1, 2) {
                n.typmod = call(r, c.op).typmod;
            }
        }
        // operands swapped
        3 => {
            n.d.swap(0, 1);
            n.t.swap(0, 1);
            n.m.swap(0, 1);
            n.v.swap(0, 1);
        }
        // a value close to the other, or alike in part of its bits
        _ => {
            let k = r.below(2) as usize;
            if d_ok(n.d[k]) {
                let x = n.d[k] + *r.pick(&[1, -1, 7, 31, -31, 365, 366, 146_097, 256, 65_536]);
                if d_ok(x) {
                    n.d[k] = x;
                }
            }
            if t_ok(n.t[k] as i128) {
                let base = n.t[k];
                let x = match r.below(9) {
                    0 => base as i128 + r.range(-2, 2) as i128,
                    1 => (base.div_euclid(DAY) * DAY) as i128 + gen::tod(r).min(DAY - 1) as i128,
                    2 => (base / DAY * DAY) as i128 + r.range(0, DAY - 1) as i128,
                    3 => base as i128 + (1i128 << 32) * r.range(-3, 3) as i128,
                    4 => -(base as i128),
                    5 => base as i128 + DAY as i128 * r.range(-40, 40) as i128,
                    6 => (base / 1_000_000 * 1_000_000) as i128,
                    7 => base as i128 + 3_600_000_000 * r.range(-30, 30) as i128,
                    _ => base as i128 + DAY as i128 * 366 * r.range(-3, 3) as i128,
                };
                if t_ok(x) {
                    n.t[k] = x as i64;
                }
            }
            if args.contains('m') || args.contains('w') {
                let x = match r.below(4) {
                    0 => n.m[k] + r.range(-2, 2),
                    1 => n.m[k] / 1_000_000 * 1_000_000,
                    2 => n.m[k] + 3_600_000_000 * r.range(-3, 3),
                    _ => DAY - n.m[k],
                };
                if (0..=DAY).contains(&x) {
                    n.m[k] = x;
                }
            }
            if args.contains('v') || args.contains('x') {
                match r.below(6) {
                    0 => n.v[k].m = n.v[k].m.wrapping_neg(),
                    1 => n.v[k].d = n.v[k].d.wrapping_neg(),
                    2 => n.v[k].t = n.v[k].t.wrapping_neg(),
                    3 => n.v[k].t = n.v[k].t.wrapping_add(1 << 32),
                    4 => n.v[k].d = n.v[k].d.wrapping_add(1),
                    _ => n.v[k].m = n.v[k].m.wrapping_add(1),
                }
            }
            if args.contains('N') {
                let j = r.below(6) as usize;
                n.n[j] = n.n[j].wrapping_add(*r.pick(&[1, -1]));
            }
            if args.contains('n') {
                n.n[0] = n.n[0].wrapping_add(*r.pick(&[1, -1]));
            }
            if args.contains('f') {
                n.f = if r.chance(1, 2) { -n.f } else { n.f + 1.0 };
            }
            if !n.text.is_empty() {
                n.text = match r.below(4) {
                    0 => crate::soup::mutate(r, &n.text),
                    1 => crate::spell::recase(r, &n.text),
                    2 => n.text.chars().rev().collect::<String>(),
                    _ => {
                        // other digits, same shape
                        n.text.chars().map(|ch| if ch.is_ascii_digit() && r.chance(1, 3) { (b'0' + r.below(10) as u8) as char } else { ch }).collect()
                    }
                };
            }
        }
    }
    n
}
