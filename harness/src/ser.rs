//! P28: values through serde, in human-readable and binary formats.

use crate::core::*;
use crate::gen;
use crate::iv::{mk, rd, Iv};
use crate::model::*;
use crate::props::*;
use crate::soup;
use bincode::Options;
use pgdatetime::{Date, DateOrder, Interval, IntervalStyle, Time, Timestamp};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    D(i64),
    T(i64),
    M(i64),
    I(Iv),
}

/// One type as the monitors see it.
trait Ty: Serialize + DeserializeOwned + Copy {
    const NAME: &'static str;
    fn v(self) -> V;
    fn text(s: &str) -> Option<V>;
}
impl Ty for Date {
    const NAME: &'static str = "date";
    fn v(self) -> V {
        V::D(dv(self))
    }
    fn text(s: &str) -> Option<V> {
        Date::try_from_str(s, DateOrder::YMD).ok().map(|x| x.v())
    }
}
impl Ty for Timestamp {
    const NAME: &'static str = "timestamp";
    fn v(self) -> V {
        V::T(tv(self))
    }
    fn text(s: &str) -> Option<V> {
        Timestamp::try_from_str(s, -1, DateOrder::YMD).ok().map(|x| x.v())
    }
}
impl Ty for Time {
    const NAME: &'static str = "time";
    fn v(self) -> V {
        V::M(tmv(self))
    }
    fn text(s: &str) -> Option<V> {
        Time::try_from_str(s, -1, DateOrder::YMD).ok().map(|x| x.v())
    }
}
impl Ty for Interval {
    const NAME: &'static str = "interval";
    fn v(self) -> V {
        V::I(rd(self))
    }
    fn text(s: &str) -> Option<V> {
        Interval::try_from_str(s, -1, IntervalStyle::SQLStandard).ok().map(|x| x.v())
    }
}

fn e<X: std::fmt::Display>(what: &str) -> impl Fn(X) -> String + '_ {
    move |x| format!("{}: {}", what, x)
}

fn same<T: Ty>(what: &str, got: T, want: T) -> Result<(), String> {
    if got.v() == want.v() {
        Ok(())
    } else {
        Err(format!("{}: came back as {:?}, was {:?}", what, got.v(), want.v()))
    }
}

fn cbor_err<X: std::fmt::Debug>(what: &str) -> impl Fn(X) -> String + '_ {
    move |x| format!("{}: {:?}", what, x)
}

// ---- human-readable ----------------------------------------------------------

fn human<T: Ty>(x: T, text: &str) -> Result<(), String> {
    let j = serde_json::to_string(&x).map_err(e("json"))?;
    let want = format!("\"{}\"", text);
    if j != want {
        return Err(format!("json text {}, expected {}", j, want));
    }
    same("json str", serde_json::from_str::<T>(&j).map_err(e("json str"))?, x)?;
    same("json slice", serde_json::from_slice::<T>(j.as_bytes()).map_err(e("json slice"))?, x)?;
    same("json reader", serde_json::from_reader::<_, T>(j.as_bytes()).map_err(e("json reader"))?, x)?;
    // escapes force an owned text
    let esc: String = text.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
    same("json escaped", serde_json::from_str::<T>(&format!("\"{}\"", esc)).map_err(e("json escaped"))?, x)?;
    let val = serde_json::to_value(x).map_err(e("json value"))?;
    if val != serde_json::Value::String(text.to_string()) {
        return Err(format!("json value {:?}", val));
    }
    same("json value", serde_json::from_value::<T>(val.clone()).map_err(e("json value"))?, x)?;
    same("json value ref", T::deserialize(&val).map_err(e("json value ref"))?, x)?;
    let r = ron::to_string(&x).map_err(e("ron"))?;
    same("ron", ron::from_str::<T>(&r).map_err(e("ron"))?, x)
}

// ---- binary ------------------------------------------------------------------

fn cint(v: i128) -> serde_cbor::Value {
    serde_cbor::Value::Integer(v)
}

fn binary<T: Ty>(x: T, fixed: &[u8], ints: &[(&str, i128)]) -> Result<(), String> {
    let b = bincode::serialize(&x).map_err(e("bincode"))?;
    if b != fixed {
        return Err(format!("bincode bytes {:?}, expected {:?}", b, fixed));
    }
    same("bincode", bincode::deserialize::<T>(&b).map_err(e("bincode"))?, x)?;
    same("bincode reader", bincode::deserialize_from::<_, T>(&b[..]).map_err(e("bincode reader"))?, x)?;
    for cut in 0..b.len() {
        if let Ok(y) = bincode::deserialize::<T>(&b[..cut]) {
            return Err(format!("bincode: {} of {} bytes read as {:?}", cut, b.len(), y.v()));
        }
    }
    let o = bincode::DefaultOptions::new();
    let b = o.serialize(&x).map_err(e("bincode varint"))?;
    same("bincode varint", o.deserialize::<T>(&b).map_err(e("bincode varint"))?, x)?;
    let o = bincode::DefaultOptions::new().with_big_endian().with_fixint_encoding();
    let b = o.serialize(&x).map_err(e("bincode big-endian"))?;
    same("bincode big-endian", o.deserialize::<T>(&b).map_err(e("bincode big-endian"))?, x)?;

    let c = serde_cbor::to_vec(&x).map_err(e("cbor"))?;
    let gen: serde_cbor::Value = serde_cbor::from_slice(&c).map_err(e("cbor as a value"))?;
    let want = if ints.len() == 1 {
        cint(ints[0].1)
    } else {
        serde_cbor::Value::Map(ints.iter().map(|(k, v)| (serde_cbor::Value::Text(k.to_string()), cint(*v))).collect())
    };
    if gen != want {
        return Err(format!("cbor value {:?}, expected {:?}", gen, want));
    }
    same("cbor", serde_cbor::from_slice::<T>(&c).map_err(e("cbor"))?, x)?;
    same("cbor reader", serde_cbor::from_reader::<T, _>(&c[..]).map_err(e("cbor reader"))?, x)?;
    let c = serde_cbor::ser::to_vec_packed(&x).map_err(e("packed cbor"))?;
    same("packed cbor", serde_cbor::from_slice::<T>(&c).map_err(e("packed cbor"))?, x)?;
    let mut c = vec![];
    ciborium::into_writer(&x, &mut c).map_err(cbor_err("ciborium"))?;
    same("ciborium", ciborium::from_reader::<T, _>(&c[..]).map_err(cbor_err("ciborium"))?, x)?;
    let val = ciborium::Value::serialized(&x).map_err(cbor_err("ciborium value"))?;
    let _ = val;
    Ok(())
}

// ---- a format of our own: what a binary format may hand to the visitors ------------

#[derive(Debug, Clone, Copy)]
enum Atom {
    Str(&'static str),
    Borrowed(&'static str),
    Owned(&'static str),
    Bytes(&'static str),
    BorrowedBytes(&'static str),
    ByteBuf(&'static str),
    U8(u8),
    U32(u32),
    U64(u64),
    I32(i32),
    I64(i64),
}

impl<'de> serde::de::IntoDeserializer<'de, serde::de::value::Error> for Atom {
    type Deserializer = Atom;
    fn into_deserializer(self) -> Atom {
        self
    }
}

impl<'de> serde::Deserializer<'de> for Atom {
    type Error = serde::de::value::Error;
    fn deserialize_any<W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, Self::Error> {
        match self {
            Atom::Str(s) => w.visit_str(&s.to_string()),
            Atom::Borrowed(s) => w.visit_borrowed_str(s),
            Atom::Owned(s) => w.visit_string(s.to_string()),
            Atom::Bytes(s) => w.visit_bytes(&s.as_bytes().to_vec()),
            Atom::BorrowedBytes(s) => w.visit_borrowed_bytes(s.as_bytes()),
            Atom::ByteBuf(s) => w.visit_byte_buf(s.as_bytes().to_vec()),
            Atom::U8(n) => w.visit_u8(n),
            Atom::U32(n) => w.visit_u32(n),
            Atom::U64(n) => w.visit_u64(n),
            Atom::I32(n) => w.visit_i32(n),
            Atom::I64(n) => w.visit_i64(n),
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier
        ignored_any
    }
}

struct Fields(Vec<(Atom, Atom)>, bool);

impl<'de> serde::Deserializer<'de> for Fields {
    type Error = serde::de::value::Error;
    fn deserialize_any<W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, Self::Error> {
        if self.1 {
            w.visit_seq(serde::de::value::SeqDeserializer::new(self.0.into_iter().map(|x| x.1)))
        } else {
            w.visit_map(serde::de::value::MapDeserializer::new(self.0.into_iter()))
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier
        ignored_any
    }
}

/// fields of an interval in any order, named in any of the ways a binary format may use
fn fields_in(r: &mut Rng, v: Iv) -> Result<(), String> {
    let key = |r: &mut Rng, k: usize| {
        let n = ["time", "day", "month"][k];
        match r.below(9) {
            0 => Atom::Str(n),
            1 => Atom::Borrowed(n),
            2 => Atom::Owned(n),
            3 => Atom::Bytes(n),
            4 => Atom::BorrowedBytes(n),
            5 => Atom::ByteBuf(n),
            6 => Atom::U8(k as u8),
            7 => Atom::U32(k as u32),
            _ => Atom::U64(k as u64),
        }
    };
    let vals = [Atom::I64(v.t), if r.chance(1, 2) { Atom::I32(v.d) } else { Atom::I64(v.d as i64) }, if r.chance(1, 2) { Atom::I32(v.m) } else { Atom::I64(v.m as i64) }];
    let mut order = [0usize, 1, 2];
    for i in (1..3).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let f: Vec<(Atom, Atom)> = order.iter().map(|&k| (key(r, k), vals[k])).collect();
    let got = Interval::deserialize(Fields(f.clone(), false)).map_err(|x| format!("{:?}: {}", f, x))?;
    if rd(got) != v {
        return Err(format!("{:?} read as {:?}", f, rd(got)));
    }
    let q: Vec<(Atom, Atom)> = (0..3).map(|k| (key(r, k), vals[k])).collect();
    let got = Interval::deserialize(Fields(q.clone(), true)).map_err(|x| format!("sequence {:?}: {}", q, x))?;
    if rd(got) != v {
        return Err(format!("sequence {:?} read as {:?}", q, rd(got)));
    }
    no("a missing field", Interval::deserialize(Fields(f[..2].to_vec(), false)))?;
    no("a short sequence", Interval::deserialize(Fields(q[..r.below(3) as usize].to_vec(), true)))?;
    let mut twice = f.clone();
    let k = r.below(3) as usize;
    twice.push((key(r, k), vals[k]));
    no("a field given twice", Interval::deserialize(Fields(twice, false)))?;
    let mut more = f.clone();
    let bad = match r.below(6) {
        0 => Atom::Str("days"),
        1 => Atom::Bytes("days"),
        2 => Atom::Bytes("Time"),
        3 => Atom::U8(3),
        4 => Atom::U64(u64::MAX),
        _ => Atom::Bytes(""),
    };
    more[k].0 = bad;
    no("a misnamed field", Interval::deserialize(Fields(more, false)))?;
    let mut wide = f;
    for x in wide.iter_mut().zip(order) {
        if x.1 == 0 {
            x.0 .1 = Atom::U64(1 << 63);
        } else if r.chance(1, 2) {
            x.0 .1 = Atom::I64([1i64 << 31, -(1i64 << 31) - 1, 1 << 32, i64::MAX, i64::MIN][r.below(5) as usize]);
        }
    }
    no("a field too wide", Interval::deserialize(Fields(wide, false)))
}

fn fixed_iv(v: Iv) -> Vec<u8> {
    let mut b = v.t.to_le_bytes().to_vec();
    b.extend_from_slice(&v.d.to_le_bytes());
    b.extend_from_slice(&v.m.to_le_bytes());
    b
}

fn inf_or(neg: bool, pos: bool, s: impl Fn() -> String) -> String {
    if neg {
        "-infinity".into()
    } else if pos {
        "infinity".into()
    } else {
        s()
    }
}

fn date_text(n: i64) -> String {
    inf_or(n == DNEG as i64, n == DPOS as i64, || print_date(n, St::Iso, Or::Ymd))
}
fn ts_text(v: i64) -> String {
    inf_or(v == TNEG, v == TPOS, || print_ts(v, St::Iso, Or::Ymd))
}

// ---- inside other things -----------------------------------------------------

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Rec {
    date: Date,
    time: Option<Time>,
    list: Vec<Timestamp>,
    iv: (Interval, Date),
    names: BTreeMap<Date, Interval>,
    by: HashMap<Timestamp, Time>,
    kind: Kind,
    new: Wrap,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Wrap(Timestamp);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Kind {
    D(Date),
    T { at: Timestamp, span: Interval },
    M(Time, Time),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "k")]
enum Tagged {
    A { at: Timestamp, span: Interval },
    B { date: Date, time: Time },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Loose {
    A { at: Timestamp, span: Interval },
    B { date: Date, time: Time },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Flat {
    id: u8,
    #[serde(flatten)]
    rest: Inner,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Inner {
    date: Date,
    at: Timestamp,
    span: Interval,
    time: Time,
}

fn d_any(r: &mut Rng) -> i64 {
    match r.below(24) {
        0 => DNEG as i64,
        1 => DPOS as i64,
        _ => gen::day(r),
    }
}
fn t_any(r: &mut Rng) -> i64 {
    if r.chance(1, 12) {
        gen::ts_inf(r)
    } else {
        gen::ts(r)
    }
}
fn iv_any(r: &mut Rng) -> Iv {
    loop {
        let v = gen::iv_printable_gen(r);
        // i32::MIN hours print but do not read back (known finding of P07)
        if iv_fields(v).3.abs() != 1 << 31 {
            return v;
        }
    }
}

fn rec(r: &mut Rng) -> Rec {
    let di = |r: &mut Rng| d(d_any(r));
    let t = |r: &mut Rng| ts(t_any(r));
    let m = |r: &mut Rng| tm(gen::tod(r));
    let i = |r: &mut Rng| mk(iv_any(r));
    Rec {
        date: di(r),
        time: if r.chance(1, 3) { None } else { Some(m(r)) },
        list: (0..r.below(4)).map(|_| t(r)).collect(),
        iv: (i(r), di(r)),
        names: (0..r.below(4)).map(|_| (di(r), i(r))).collect(),
        by: (0..r.below(3)).map(|_| (t(r), m(r))).collect(),
        kind: match r.below(3) {
            0 => Kind::D(di(r)),
            1 => Kind::T { at: t(r), span: i(r) },
            _ => Kind::M(m(r), m(r)),
        },
        new: Wrap(t(r)),
    }
}

/// Interval equality of the crate is fieldwise; that is what is wanted here.
fn back<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T, binary_too: bool) -> Result<(), String> {
    let cmp = |what: &str, y: T| if y == *x { Ok(()) } else { Err(format!("{}: came back as {:?}", what, y)) };
    let j = serde_json::to_string(x).map_err(e("json"))?;
    cmp("json", serde_json::from_str(&j).map_err(e("json"))?)?;
    let p = serde_json::to_string_pretty(x).map_err(e("pretty json"))?;
    cmp("pretty json", serde_json::from_reader(p.as_bytes()).map_err(e("pretty json"))?)?;
    cmp("json value", serde_json::from_value(serde_json::to_value(x).map_err(e("json value"))?).map_err(e("json value"))?)?;
    if !binary_too {
        return Ok(());
    }
    let s = ron::to_string(x).map_err(e("ron"))?;
    cmp("ron", ron::from_str(&s).map_err(e("ron"))?)?;
    let b = bincode::serialize(x).map_err(e("bincode"))?;
    cmp("bincode", bincode::deserialize(&b).map_err(e("bincode"))?)?;
    let o = bincode::DefaultOptions::new();
    cmp("bincode varint", o.deserialize(&o.serialize(x).map_err(e("bincode varint"))?).map_err(e("bincode varint"))?)?;
    cmp("cbor", serde_cbor::from_slice(&serde_cbor::to_vec(x).map_err(e("cbor"))?).map_err(e("cbor"))?)?;
    cmp("packed cbor", serde_cbor::from_slice(&serde_cbor::ser::to_vec_packed(x).map_err(e("packed cbor"))?).map_err(e("packed cbor"))?)?;
    let mut c = vec![];
    ciborium::into_writer(x, &mut c).map_err(cbor_err("ciborium"))?;
    cmp("ciborium", ciborium::from_reader(&c[..]).map_err(cbor_err("ciborium"))?)
}

// ---- bad input ----------------------------------------------------------------

/// a text is read exactly as the type's own parser reads it
fn text_in<T: Ty>(s: &str) -> Result<(), String> {
    let want = T::text(s);
    let q = serde_json::to_string(s).map_err(e("quoting"))?;
    let got = serde_json::from_str::<T>(&q).ok().map(|x| x.v());
    if got != want {
        return Err(format!("{} from json: {:?}, its parser: {:?}", T::NAME, got, want));
    }
    Ok(())
}

/// an input that must not be taken for a value
fn no<T: Ty, E>(what: &str, r: Result<T, E>) -> Result<(), String> {
    match r {
        Ok(x) => Err(format!("{} from {}: read as {:?}", T::NAME, what, x.v())),
        Err(_) => Ok(()),
    }
}

fn wrong_json<T: Ty>(r: &mut Rng) -> Result<(), String> {
    let n = gen::i64_any(r);
    for s in [
        "null".to_string(),
        "true".into(),
        "[]".into(),
        "{}".into(),
        "\"\"".into(),
        "\" \"".into(),
        n.to_string(),
        format!("{}.5", n % 1000),
        format!("[{}]", n),
        "[\"2020-01-01\"]".into(),
        format!("{{\"time\":{},\"day\":1,\"month\":1}}", n),
        "\"2020-01-01".into(),
        "\"2020-13-01\"".into(),
        "\"99 foo\"".into(),
    ] {
        no::<T, _>(&format!("json {}", s), serde_json::from_str::<T>(&s))?;
    }
    Ok(())
}

fn cborv(v: serde_cbor::Value) -> Vec<u8> {
    serde_cbor::to_vec(&v).unwrap()
}

/// integers that do not fit, and other kinds of values, in a self-describing binary format
fn wrong_cbor(r: &mut Rng) -> Result<(), String> {
    use serde_cbor::Value as C;
    let n = match r.below(4) {
        0 => i32::MAX as i128 + 1 + r.below(1000) as i128,
        1 => i32::MIN as i128 - 1 - r.below(1000) as i128,
        2 => (1i128 << 32) + r.range(-100_000, 100_000) as i128,
        _ => {
            let x = gen::i64_any(r) as i128;
            if x >= i32::MIN as i128 && x <= i32::MAX as i128 {
                1 << 40
            } else {
                x
            }
        }
    };
    no::<Date, _>(&format!("cbor {}", n), serde_cbor::from_slice(&cborv(cint(n))))?;
    let big = match r.below(3) {
        0 => i64::MAX as i128 + 1 + r.below(1000) as i128,
        1 => u64::MAX as i128 - r.below(1000) as i128,
        _ => -(i64::MAX as i128) - 2 - r.below(1000) as i128,
    };
    no::<Timestamp, _>(&format!("cbor {}", big), serde_cbor::from_slice(&cborv(cint(big))))?;
    no::<Time, _>(&format!("cbor {}", big), serde_cbor::from_slice(&cborv(cint(big))))?;
    for v in [C::Null, C::Bool(true), C::Float(1.5), C::Array(vec![cint(1)]), C::Bytes(b"2020-01-01".to_vec())] {
        let b = cborv(v.clone());
        no::<Date, _>(&format!("cbor {:?}", v), serde_cbor::from_slice(&b))?;
        no::<Timestamp, _>(&format!("cbor {:?}", v), serde_cbor::from_slice(&b))?;
        no::<Time, _>(&format!("cbor {:?}", v), serde_cbor::from_slice(&b))?;
        no::<Interval, _>(&format!("cbor {:?}", v), serde_cbor::from_slice(&b))?;
    }
    // interval maps: missing, repeated, unknown, too wide fields
    let ent = |k: &str, n: i128| -> Vec<u8> {
        let mut b = cborv(C::Text(k.into()));
        b.extend(cborv(cint(n)));
        b
    };
    let map = |es: &[(&str, i128)]| -> Vec<u8> {
        let mut b = vec![0xa0 + es.len() as u8];
        for (k, n) in es {
            b.extend(ent(k, *n));
        }
        b
    };
    let (t, d, m) = (gen::i64_any(r) as i128, gen::i32_any(r) as i128, gen::i32_any(r) as i128);
    let iv = Iv::new(m as i32, d as i32, t as i64);
    let mut order = [("time", t), ("day", d), ("month", m)];
    for k in 0..3 {
        let j = k + r.below(3 - k as u64) as usize;
        order.swap(k, j);
    }
    let got = serde_cbor::from_slice::<Interval>(&map(&order)).map_err(e("cbor map"))?;
    same("interval map in any order", got, mk(iv))?;
    let seq = cborv(C::Array(vec![cint(t), cint(d), cint(m)]));
    same("interval as a sequence", serde_cbor::from_slice::<Interval>(&seq).map_err(e("cbor seq"))?, mk(iv))?;
    let bad = |what: &str, es: &[(&str, i128)]| no::<Interval, _>(what, serde_cbor::from_slice(&map(es)));
    bad("a map without fields", &[])?;
    for k in 0..3 {
        let mut es = order.to_vec();
        es.remove(k);
        bad("a map with a missing field", &es)?;
        es.push((order[(k + 1) % 3].0, 1));
        bad("a map with a repeated field", &es)?;
        let mut es = order.to_vec();
        es.push((order[k].0, order[k].1));
        bad("a map with all fields and a repeated one", &es)?;
        let mut es = order.to_vec();
        es[k].0 = ["year", "Day", "days", "tim", ""][r.below(5) as usize];
        bad("a map with an unknown field", &es)?;
        let mut es = order.to_vec();
        es[k].1 = if es[k].0 == "time" { big } else { n };
        bad("a map with a field that does not fit", &es)?;
    }
    no::<Interval, _>("a short sequence", serde_cbor::from_slice(&cborv(C::Array(vec![cint(t), cint(d)]))))?;
    no::<Interval, _>("an empty sequence", serde_cbor::from_slice(&cborv(C::Array(vec![]))))?;
    Ok(())
}

/// arbitrary bytes: an outcome, whatever it is
fn bytes_in(b: &[u8]) {
    let s = String::from_utf8_lossy(b);
    let _ = bincode::deserialize::<(Date, Interval, Timestamp, Time)>(b);
    let _ = serde_cbor::from_slice::<Interval>(b);
    let _ = serde_cbor::from_slice::<Vec<Date>>(b);
    let _ = serde_cbor::from_slice::<Timestamp>(b);
    let _ = ciborium::from_reader::<Interval, _>(b);
    let _ = ciborium::from_reader::<Time, _>(b);
    let _ = serde_json::from_slice::<Interval>(b);
    let _ = serde_json::from_str::<Vec<Date>>(&s);
    let _ = ron::from_str::<Timestamp>(&s);
}

fn quiet(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    guarded(f).unwrap_or_else(|p| Err(format!("panicked: {}", p)))
}

pub fn p28(run: &mut Run) {
    run.rule = "values of every type (infinities, range ends, BC years included) through JSON, RON, bincode and CBOR, alone and inside structs, enums, options, sequences, tuples, maps and map keys; JSON text against an independent printer, bincode bytes and CBOR values against the integers; wrong inputs must be errors; distinct by value or input".into();
    run.shards(2800, run.n(12_000, 1_500_000), |sh, r, i| {
        match i % 4 {
            0 => {
                let n = d_any(r);
                let cl = if d_ok(n) { "date" } else { "infinite date" };
                sh.check(cl, n as u64, || show_d(n), || quiet(|| {
                    human(d(n), &date_text(n))?;
                    binary(d(n), &(n as i32).to_le_bytes(), &[("", n as i128)])
                }));
            }
            1 => {
                let v = t_any(r);
                let cl = if t_ok(v as i128) { "timestamp" } else { "infinite timestamp" };
                sh.check(cl, v as u64, || show_t(v), || quiet(|| {
                    human(ts(v), &ts_text(v))?;
                    binary(ts(v), &v.to_le_bytes(), &[("", v as i128)])
                }));
            }
            2 => {
                let t = gen::tod(r);
                sh.check("time", t as u64, || format!("time {}", t), || quiet(|| {
                    human(tm(t), &clock(t))?;
                    binary(tm(t), &t.to_le_bytes(), &[("", t as i128)])
                }));
            }
            _ => {
                let v = if r.chance(1, 4) { gen::iv(r) } else { iv_any(r) };
                let printable = iv_printable(v);
                let cl = if printable { "interval" } else { "interval that has no text" };
                sh.check(cl, v.key(), || format!("{:?}", v), || quiet(|| {
                    if !printable {
                        if let Ok(j) = serde_json::to_string(&mk(v)) {
                            return Err(format!("json {} for an interval without a text", j));
                        }
                    } else if iv_fields(v).3.abs() != 1 << 31 {
                        human(mk(v), &print_iv(v, Is::Sql))?;
                    }
                    binary(mk(v), &fixed_iv(v), &[("time", v.t as i128), ("day", v.d as i128), ("month", v.m as i128)])
                }));
            }
        }
    });
    run.shards(2810, run.n(20_000, 2_000_000), |sh, r, _| {
        let v = if r.chance(1, 4) { gen::iv(r) } else { iv_any(r) };
        sh.check("interval fields by name, bytes or index", v.key(), || format!("{:?}", v), || quiet(|| fields_in(r, v)));
    });
    run.require("interval fields by name, bytes or index", 1000);
    run.shards(2801, run.n(4_000, 400_000), |sh, r, _| {
        let x = rec(r);
        let desc = format!("{:?}", x);
        sh.check("structs, enums, options, sequences, tuples, maps, map keys", hash_str(&desc), || clip(&desc, 600), || quiet(|| back(&x, true)));
        let (at, span, date, time) = (x.new.0, x.iv.0, x.date, tm(gen::tod(r)));
        let k = hash64(&[tv(at) as u64, rd(span).key(), dv(date) as u64, tmv(time) as u64]);
        let show = || format!("{} {:?} {} {}", show_t(tv(at)), rd(span), show_d(dv(date)), tmv(time));
        sh.check("tagged, untagged and flattened in json", k, show, || quiet(|| {
            back(&Tagged::A { at, span }, false)?;
            back(&Tagged::B { date, time }, false)?;
            back(&Loose::A { at, span }, false)?;
            back(&Loose::B { date, time }, false)?;
            back(&Flat { id: 7, rest: Inner { date, at, span, time } }, false)
        }));
    });
    run.shards(2802, run.n(12_000, 1_000_000), |sh, r, i| {
        match i % 4 {
            0 | 1 => {
                let (s, class) = soup::text_class(r, Or::Ymd);
                sh.note(&s);
                let _ = class;
                sh.check("any text, read as the parser reads it", hash_str(&s), || format!("{:?}", clip(&s, 300)), || quiet(|| {
                    text_in::<Date>(&s)?;
                    text_in::<Timestamp>(&s)?;
                    text_in::<Time>(&s)?;
                    text_in::<Interval>(&s)
                }));
            }
            2 => {
                let s = r.u64();
                sh.check("input of the wrong type or width", s, || format!("seed {}", s), || quiet(|| {
                    let mut r = Rng::new(s, 1);
                    wrong_json::<Date>(&mut r)?;
                    wrong_json::<Timestamp>(&mut r)?;
                    wrong_json::<Time>(&mut r)?;
                    wrong_json::<Interval>(&mut r)?;
                    wrong_cbor(&mut r)
                }));
            }
            _ => {
                let mut b = match r.below(3) {
                    0 => serde_cbor::to_vec(&mk(gen::iv(r))).unwrap(),
                    1 => serde_json::to_vec(&ts(gen::ts(r))).unwrap_or_default(),
                    _ => (0..r.below(40)).map(|_| r.u64() as u8).collect(),
                };
                for _ in 0..r.below(4) {
                    if !b.is_empty() {
                        let k = r.below(b.len() as u64) as usize;
                        b[k] = r.u64() as u8;
                    }
                }
                sh.check("damaged bytes", hash64(&b.iter().map(|x| *x as u64).collect::<Vec<_>>()), || format!("{:?}", b), || quiet(|| {
                    bytes_in(&b);
                    Ok(())
                }));
            }
        }
    });
    for c in ["date", "infinite date", "timestamp", "infinite timestamp", "time", "interval", "interval that has no text", "structs, enums, options, sequences, tuples, maps, map keys", "tagged, untagged and flattened in json", "any text, read as the parser reads it", "input of the wrong type or width", "damaged bytes"] {
        run.require(c, 100);
    }
}
