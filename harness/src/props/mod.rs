pub mod arith;
pub mod audit;
pub mod civil;
pub mod fields;
pub mod hist;
pub mod intervals;
pub mod itext;
pub mod order;
pub mod print;
pub mod text;
pub mod text2;
pub mod total;

use crate::model::*;
use pgdatetime::*;

pub fn d(n: i64) -> Date {
    Date::from(n as i32)
}
pub fn dv(d: Date) -> i64 {
    i32::from(d) as i64
}
pub fn ts(v: i64) -> Timestamp {
    Timestamp::from(v)
}
pub fn tv(t: Timestamp) -> i64 {
    i64::from(t)
}
pub fn tm(v: i64) -> Time {
    Time::from(v)
}
pub fn tmv(t: Time) -> i64 {
    i64::from(t)
}

/// Compares an observed outcome with the expected one.
pub fn meets<T: PartialEq + std::fmt::Debug>(
    got: Result<T, DateTimeError>,
    want: Want<T>,
) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Want::Exact(w)) | (Ok(g), Want::Either(w)) => {
            if g == w {
                Ok(())
            } else {
                Err(format!("got {:?}, expected {:?}", g, w))
            }
        }
        (Ok(g), Want::Error) => Err(format!("got {:?}, expected an error", g)),
        (Err(_), Want::Error) | (Err(_), Want::Either(_)) => Ok(()),
        (Err(e), Want::Exact(w)) => Err(format!("got error ({}), expected {:?}", e, w)),
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("got {:?}, expected {:?}", got, want))
    }
}

pub fn ok<T>(r: Result<T, DateTimeError>) -> Result<T, String> {
    r.map_err(|e| format!("got error ({}), expected a value", e))
}

pub fn show_d(n: i64) -> String {
    if n == DNEG as i64 || n == DPOS as i64 {
        return format!("date {}", if n < 0 { "-infinity" } else { "infinity" });
    }
    if d_ok(n) {
        format!("date {} ({})", print_date(n, St::Iso, Or::Ymd), n)
    } else {
        format!("date #{}", n)
    }
}
pub fn show_t(v: i64) -> String {
    if v == TNEG || v == TPOS {
        return format!("timestamp {}", if v < 0 { "-infinity" } else { "infinity" });
    }
    if t_ok(v as i128) {
        format!("timestamp {} ({})", print_ts(v, St::Iso, Or::Ymd), v)
    } else {
        format!("timestamp #{}", v)
    }
}
