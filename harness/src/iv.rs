//! Exact construction and reading of `Interval` fields.
//!
//! `Interval` is `#[repr(C)]`, 16 bytes, one i64 and two i32. The order of its
//! fields is found by probing the public constructors, so a reordering of the
//! fields does not disturb the monitors.

use pgdatetime::{Interval, Time};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Iv {
    pub m: i32,
    pub d: i32,
    pub t: i64,
}

impl Iv {
    pub const fn new(m: i32, d: i32, t: i64) -> Iv {
        Iv { m, d, t }
    }
    pub fn total(self) -> i128 {
        self.t as i128 + (self.d as i128 + self.m as i128 * 30) * 86_400_000_000
    }
    pub fn key(self) -> u64 {
        crate::core::hash64(&[self.m as u64, self.d as u64, self.t as u64])
    }
}

#[derive(Clone, Copy)]
struct Layout {
    t: usize,
    d: usize,
    m: usize,
}

// word offsets (4-byte words)
const LAYOUTS: [Layout; 6] = [
    Layout { t: 0, d: 2, m: 3 },
    Layout { t: 0, d: 3, m: 2 },
    Layout { t: 2, d: 0, m: 1 },
    Layout { t: 2, d: 1, m: 0 },
    Layout { t: 0, d: 2, m: 3 },
    Layout { t: 0, d: 2, m: 3 },
];

fn words(i: Interval) -> [u32; 4] {
    // size equality is checked at compile time by transmute
    unsafe { std::mem::transmute::<Interval, [u32; 4]>(i) }
}

fn read_with(l: Layout, i: Interval) -> Iv {
    let w = words(i);
    Iv {
        t: (w[l.t] as u64 | (w[l.t + 1] as u64) << 32) as i64,
        d: w[l.d] as i32,
        m: w[l.m] as i32,
    }
}

fn layout() -> Layout {
    static L: OnceLock<Layout> = OnceLock::new();
    *L.get_or_init(|| {
        let mut best = (0, LAYOUTS[0]);
        for l in &LAYOUTS[..4] {
            let mut score = 0;
            for x in [1i64, 7_000_000, 86_399_999_999] {
                if read_with(*l, Interval::from(Time::from(x))) == Iv::new(0, 0, x) {
                    score += 1;
                }
            }
            for (a, b) in [(5, 3), (1, 9)] {
                if let Ok(i) = Interval::try_from_ymwd_hms(0, a, 0, b, 0, 0, 0.0) {
                    if read_with(*l, i) == Iv::new(a, b, 0) {
                        score += 1;
                    }
                }
            }
            if score > best.0 {
                best = (score, *l);
            }
        }
        best.1
    })
}

pub fn rd(i: Interval) -> Iv {
    read_with(layout(), i)
}

pub fn mk(v: Iv) -> Interval {
    let l = layout();
    let mut w = [0u32; 4];
    w[l.t] = v.t as u64 as u32;
    w[l.t + 1] = (v.t as u64 >> 32) as u32;
    w[l.d] = v.d as u32;
    w[l.m] = v.m as u32;
    unsafe { std::mem::transmute::<[u32; 4], Interval>(w) }
}
