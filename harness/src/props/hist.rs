//! P24 closure over histories, P27 independence of history and thread.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::{mk, Iv};
use crate::ops::{self, Call, Out, OPS};
use crate::soup;
use crate::spell::recase;
use std::sync::Barrier;

// ---- P24 -------------------------------------------------------------------

fn fin_d(n: i64) -> bool {
    n != DNEG as i64 && n != DPOS as i64
}
fn fin_t(v: i64) -> bool {
    v != TNEG && v != TPOS
}

/// what the reference model says about a call on finite values
fn expected(c: &Call) -> Option<Want<Out>> {
    let dd = |x: i64| if d_ok(x) { Want::Exact(Out::D(x)) } else { Want::Error };
    let tt = |x: i128| if t_ok(x) { Want::Exact(Out::T(x as i64)) } else { Want::Error };
    let wt = |w: Want<i64>| match w {
        Want::Exact(x) => Want::Exact(Out::T(x)),
        Want::Either(x) => Want::Either(Out::T(x)),
        Want::Error => Want::Error,
    };
    let (n, v) = (c.d[0], c.t[0]);
    let neg = |x: Iv| match (x.m.checked_neg(), x.d.checked_neg(), x.t.checked_neg()) {
        (Some(m), Some(d), Some(t)) => Some(Iv::new(m, d, t)),
        _ => None,
    };
    let midnight = n as i128 * DAY as i128;
    let name = c.name();
    // infinities
    if OPS[c.op].1.contains('d') && !fin_d(n) || OPS[c.op].1.contains('t') && !fin_t(v) {
        let td = if n < 0 { TNEG } else { TPOS };
        return match name {
            "Date::add_days" | "Date::sub_days" | "Date::truncate" if name != "Date::truncate" => Some(Want::Exact(Out::D(n))),
            "Date::add_interval" | "Date::sub_interval" | "Date::add_time" | "Timestamp from Date" => Some(Want::Exact(Out::T(td))),
            "Timestamp::add_interval" | "Timestamp::sub_interval" | "Timestamp::add_time" | "Timestamp::sub_time" => Some(Want::Exact(Out::T(v))),
            "Date from Timestamp" => Some(Want::Exact(Out::D(if v < 0 { DNEG as i64 } else { DPOS as i64 }))),
            _ => None,
        };
    }
    match name {
        "Date::add_days" => Some(dd(n + c.n[0] as i64)),
        "Date::sub_days" => Some(dd(n - c.n[0] as i64)),
        "Timestamp from Date" => Some(tt(midnight)),
        "Date::add_time" => Some(tt(midnight + c.m[0] as i128)),
        "Timestamp::add_time" => Some(tt(v as i128 + c.m[0] as i128)),
        "Timestamp::sub_time" => Some(tt(v as i128 - c.m[0] as i128)),
        "Date from Timestamp" => Some(Want::Exact(Out::D(split(v).0))),
        "Time from Timestamp" => Some(Want::Exact(Out::M(split(v).1))),
        "Timestamp::add_interval" => Some(wt(add_iv(v, c.v[0]))),
        "Timestamp::sub_interval" => neg(c.v[0]).map(|x| wt(add_iv(v, x))),
        "Date::add_interval" if t_ok(midnight) => Some(wt(add_iv(midnight as i64, c.v[0]))),
        "Date::sub_interval" if t_ok(midnight) => neg(c.v[0]).map(|x| wt(add_iv(midnight as i64, x))),
        "Date::add_interval" | "Date::sub_interval" => Some(Want::Error),
        "Timestamp::truncate" if !c.epoch => Some(match trunc_ts(v, c.unit) {
            Some(x) => tt(x),
            None => Want::Error,
        }),
        "Time::add_interval" => Some(Want::Exact(Out::M((c.m[0] as i128 + c.v[0].t as i128).rem_euclid(DAY as i128) as i64))),
        "Time::sub_interval" => Some(Want::Exact(Out::M((c.m[0] as i128 - c.v[0].t as i128).rem_euclid(DAY as i128) as i64))),
        "Interval::add_interval" => {
            let (a, b) = (c.v[0], c.v[1]);
            Some(match (a.m.checked_add(b.m), a.d.checked_add(b.d), a.t.checked_add(b.t)) {
                (Some(m), Some(d), Some(t)) => Want::Exact(Out::I(Iv::new(m, d, t))),
                _ => Want::Error,
            })
        }
        "Interval::negate" => Some(neg(c.v[0]).map_or(Want::Error, |x| Want::Exact(Out::I(x)))),
        _ => None,
    }
}

fn agrees(got: &Out, want: &Want<Out>) -> Result<(), String> {
    match (got, want) {
        (Out::Err, Want::Error) | (Out::Err, Want::Either(_)) => Ok(()),
        (g, Want::Exact(w)) | (g, Want::Either(w)) if g == w => Ok(()),
        (g, w) => Err(format!("gave {:?}, expected {:?}", g, w)),
    }
}

/// the value can be printed and read back
fn lives(r: &mut Rng, o: &Out) -> Result<(), String> {
    let or = *r.pick(&ORDERS);
    match o {
        Out::D(n) => {
            let st = *r.pick(&[St::Iso, St::Xsd]);
            let s = ok(d(*n).format(st.real(), or.real()))?;
            eq(Date::try_from_str(&s, or.real()).map(dv).map_err(|e| format!("{:?} not read back: {}", s, e))?, *n)
        }
        Out::T(v) => {
            let st = *r.pick(&[St::Iso, St::Xsd, St::Pg]);
            let s = ok(ts(*v).format(st.real(), or.real()))?;
            eq(Timestamp::try_from_str(&s, -1, or.real()).map(tv).map_err(|e| format!("{:?} not read back: {}", s, e))?, *v)
        }
        Out::M(t) => {
            let st = *r.pick(&STYLES);
            let s = ok(tm(*t).format(st.real()))?;
            eq(Time::try_from_str(&s, -1, or.real()).map(tmv).map_err(|e| format!("{:?} not read back: {}", s, e))?, *t)
        }
        Out::I(v) if iv_printable(*v) && v.t / HOUR != i32::MIN as i64 && v.d != i32::MIN => {
            let is = *r.pick(&[Is::Pg, Is::Verbose, Is::Iso]);
            let s = ok(mk(*v).format(is.real()))?;
            let t = Interval::try_from_str(&s, -1, Is::Pg.real()).map(crate::iv::rd).map_err(|e| format!("{:?} not read back: {}", s, e))?;
            eq(t, *v)
        }
        _ => Ok(()),
    }
}

struct Pool {
    d: Vec<i64>,
    t: Vec<i64>,
    m: Vec<i64>,
    v: Vec<Iv>,
}

pub fn p24(run: &mut Run) {
    run.rule = "histories of 40 operations over a pool of values, each fed with earlier results and checked against a shadow reference state, plus walks with a fixed step until the operation refuses; every value produced must be supported, printable and readable; distinct by (operation, operands)".into();
    let value_ops: Vec<usize> = (0..OPS.len()).filter(|k| !ops::is_parse(*k)).collect();
    run.shards(160, run.n(20_000, 600_000), |sh, r, _| {
        let mut p = Pool { d: vec![gen::day(r)], t: vec![gen::ts(r)], m: vec![gen::tod(r)], v: vec![gen::iv(r), gen::iv(r)] };
        if r.chance(1, 3) {
            p.d[0] = if r.chance(1, 2) { DMAX - r.range(0, 40) } else { DMIN + r.range(0, 40) };
            p.t[0] = if r.chance(1, 2) { TMAX - r.range(0, 40 * DAY) } else { TMIN + r.range(0, 40 * DAY) };
        }
        let mut trail: Vec<String> = vec![];
        for step in 0..40u64 {
            let op = *r.pick(&value_ops);
            let mut c = ops::call(r, op);
            // operands from the history
            fn from<T: Copy>(r: &mut Rng, xs: &[T], x: &mut T) {
                if r.chance(4, 5) {
                    let k = xs.len() - 1 - (r.below(xs.len() as u64).min(r.below(xs.len() as u64))) as usize;
                    *x = xs[k];
                }
            }
            from(r, &p.d, &mut c.d[0]);
            from(r, &p.d, &mut c.d[1]);
            from(r, &p.t, &mut c.t[0]);
            from(r, &p.t, &mut c.t[1]);
            from(r, &p.m, &mut c.m[0]);
            from(r, &p.m, &mut c.m[1]);
            from(r, &p.v, &mut c.v[0]);
            from(r, &p.v, &mut c.v[1]);
            let o = c.guarded();
            let want = expected(&c);
            let line = if sh.violations.is_empty() { String::new() } else { c.show() };
            let class = match (&o, &want) {
                (Out::Err, Some(Want::Error)) => "refused, result out of range",
                (Out::Err, _) => "refused",
                (_, Some(_)) => "produced, reference agrees",
                (Out::D(_), _) | (Out::T(_), _) | (Out::M(_), _) | (Out::I(_), _) => "produced",
                _ => "observed",
            };
            let key = hash64(&[op as u64, c.d[0] as u64, c.t[0] as u64, c.m[0] as u64, c.v[0].key(), c.n[0] as u64]);
            sh.check(class, key, || format!("step {} {} after {:?}", step, c.show(), trail.last()), || {
                if let Out::Panic(e) = &o {
                    return Err(format!("panicked: {}", e));
                }
                if !o.in_range() {
                    return Err(format!("{:?} is outside the supported range", o));
                }
                if let Some(w) = &want {
                    agrees(&o, w)?;
                }
                lives(r, &o)
            });
            if !line.is_empty() {
                trail.push(line);
            }
            let cap = 6;
            match o {
                Out::D(x) => {
                    p.d.push(x);
                    if p.d.len() > cap {
                        p.d.remove(0);
                    }
                }
                Out::T(x) => {
                    p.t.push(x);
                    if p.t.len() > cap {
                        p.t.remove(0);
                    }
                }
                Out::M(x) => {
                    p.m.push(x);
                    if p.m.len() > cap {
                        p.m.remove(0);
                    }
                }
                Out::I(x) => {
                    p.v.push(x);
                    if p.v.len() > cap {
                        p.v.remove(0);
                    }
                }
                _ => {}
            }
        }
    });
    // walks over the edge
    run.shards(161, run.n(6_000, 200_000), |sh, r, i| {
        let name = ["Timestamp::add_interval", "Timestamp::sub_interval", "Date::add_days", "Date::sub_days", "Timestamp::add_time", "Timestamp::sub_time"][(i % 6) as usize];
        let op = ops::op(name);
        let mut c = ops::call(r, op);
        let near = r.chance(1, 2);
        c.d[0] = if near { if r.chance(1, 2) { DMAX - r.range(0, 5000) } else { DMIN + r.range(0, 5000) } } else { gen::day(r) };
        c.t[0] = if near { if r.chance(1, 2) { TMAX - r.range(0, 5000 * DAY) } else { TMIN + r.range(0, 5000 * DAY) } } else { gen::ts(r) };
        c.m[0] = r.range(DAY / 2, DAY);
        let big = |r: &mut Rng| match r.below(3) {
            0 => Iv::new((r.range(1, 400) * if r.chance(1, 2) { 1 } else { -1 }) as i32 * if near { 1 } else { 5000 }, 0, 0),
            1 => Iv::new(0, (r.range(1, 3000) * if r.chance(1, 2) { 1 } else { -1 }) as i32 * if near { 1 } else { 5000 }, 0),
            _ => Iv::new(r.range(-3, 3) as i32, r.range(-40, 40) as i32, r.range(-900 * DAY, 900 * DAY)),
        };
        c.v[0] = big(r);
        c.n[0] = r.range(1, if near { 400 } else { i32::MAX as i64 / 8 }) as i32 * if r.chance(1, 2) { 1 } else { -1 };
        for step in 0..400u64 {
            let o = c.guarded();
            let want = expected(&c);
            let stop = o == Out::Err;
            sh.check(if stop { "walk refused at the edge" } else { "walk step" }, hash64(&[op as u64, c.d[0] as u64, c.t[0] as u64, c.v[0].key(), c.n[0] as u64]), || format!("walk step {}: {}", step, c.show()), || {
                if let Out::Panic(e) = &o {
                    return Err(format!("panicked: {}", e));
                }
                if !o.in_range() {
                    return Err(format!("{:?} is outside the supported range", o));
                }
                if let Some(w) = &want {
                    agrees(&o, w)?;
                }
                if step % 16 == 0 || stop {
                    lives(r, &o)?;
                }
                Ok(())
            });
            match o {
                Out::D(x) => c.d[0] = x,
                Out::T(x) => c.t[0] = x,
                _ => break,
            }
        }
    });
    // text as a source of values: whatever the parsers accept is supported
    run.shards(162, run.n(60_000, 2_000_000), |sh, r, _| {
        let ops4 = [ops::op("Date::try_from_str"), ops::op("Timestamp::try_from_str"), ops::op("Time::try_from_str")];
        let op = *r.pick(&ops4);
        let mut c = ops::call(r, op);
        if r.chance(1, 3) {
            // near the ends of the range
            let (y, m, d) = *r.pick(&[(-4713i64, 11i64, 24i64), (-4713, 11, 23), (-4714, 1, 1), (294_276, 12, 31), (294_277, 1, 1), (5_874_897, 12, 31), (5_874_898, 1, 1), (5_874_898, 6, 3)]);
            let y2 = if y <= 0 { 1 - y } else { y };
            c.text = format!("{:04}-{:02}-{:02} {}{}", y2, m, d, *r.pick(&["", "00:00:00", "23:59:59.999999", "23:59:60", "24:00:00", "23:59:59.9999999"]), if y <= 0 { " BC" } else { "" });
        }
        let o = c.guarded();
        sh.check(if o == Out::Err { "text refused" } else { "text accepted" }, hash_str(&c.text), || c.show(), || {
            if !o.in_range() {
                return Err(format!("{:?} is outside the supported range", o));
            }
            lives(r, &o)
        });
    });
    for c in ["refused, result out of range", "refused", "produced, reference agrees", "produced", "observed", "walk refused at the edge", "walk step", "text refused", "text accepted"] {
        run.require(c, 1000);
    }
}

// ---- P27 -------------------------------------------------------------------

/// outcome of a call in a thread that has done nothing else
fn isolated(c: &Call) -> Out {
    let c = c.clone();
    std::thread::Builder::new().spawn(move || c.guarded()).unwrap().join().unwrap()
}

const TEMPLATES: &[(&str, &str)] = &[
    ("d", "{} 8 1999"),
    ("d", "8 {} 1999"),
    ("d", "{} January 8 1999"),
    ("d", "January 8 1999 {}"),
    ("d", "{}-08-1999"),
    ("d", "1999 {} 08"),
    ("t", "1999-01-08 {} 04:05:06"),
    ("t", "1999-01-08 04:05:06 {}"),
    ("t", "1999-01-08 10:05 {} BC"),
    ("t", "{}"),
    ("m", "04:05:06 {}"),
    ("m", "{} 04:05"),
    ("i", "5 {}"),
    ("i", "1 day 5 {}"),
    ("i", "5 {} ago"),
    ("i", "5 days {}"),
    ("i", "{} 5 days"),
    ("i", "5{}"),
];

/// call number j of the calls that are repeated in other processes
fn process_call(seed: u64, j: u64) -> Call {
    let mut r = super::total::rng_at(seed, 273, 0, j);
    let r = &mut r;
    let op = loop {
        let op = r.below(OPS.len() as u64) as usize;
        if ops::is_parse(op) || r.chance(1, 3) {
            break op;
        }
    };
    let mut c = ops::call(r, op);
    if ops::is_parse(op) && r.chance(1, 2) {
        c.text = sentence(r);
    }
    if ops::is_parse(op) && r.chance(1, 3) {
        // what a reader could be tempted to complete from the clock or the locale
        let (y, m, d) = (r.range(0, 99), r.range(1, 12), r.range(1, 28));
        let mon = &crate::model::MONTHS[m as usize - 1][..3];
        let date = match r.below(9) {
            0 => format!("{:02}-{:02}-{:02}", y, m, d),
            1 => format!("{}/{}/{}", m, d, y),
            2 => format!("{}.{}.{}", d, m, y),
            3 => format!("{:02}{:02}{:02}", y, m, d),
            4 => format!("{} {} {:02}", d, mon, y),
            5 => format!("{} {}, {}", mon, d, y),
            6 => format!("{} {}", mon, d),
            7 => r.pick(&crate::model::WDAYS).to_string(),
            _ => format!("{:02}-{}-{:02}", d, mon, y),
        };
        c.text = if r.chance(1, 2) { date } else { format!("{} {:02}:{:02}", date, r.range(0, 23), r.range(0, 59)) };
    }
    c
}

/// `--calls SEED FROM TO`: the year on the clock, then what each call gives in this process
pub fn calls_main(a: &[String]) -> ! {
    let p = |k: usize| a[k].parse::<u64>().unwrap();
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let mut s = format!("{}\n", now);
    let one = |c: &Call| format!("{:016x}\n", hash_str(&format!("{:?}", c.guarded())));
    let calls: Vec<Call> = (p(1)..p(2)).map(|j| process_call(p(0), j)).collect();
    if a.len() > 3 {
        // all threads at once, the first calls of the process, each from another place on
        let k = p(3) as usize;
        let here = std::sync::atomic::AtomicUsize::new(0);
        let outs: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..k)
                .map(|t| {
                    let (here, calls) = (&here, &calls);
                    sc.spawn(move || {
                        let n = calls.len();
                        let mut out = vec![String::new(); n];
                        // a start to the nanosecond: threads that sleep wake up one after the other
                        use std::sync::atomic::Ordering::SeqCst;
                        here.fetch_add(1, SeqCst);
                        let t0 = std::time::Instant::now();
                        while here.load(SeqCst) < k {
                            if t0.elapsed().as_millis() > 2 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        for i in 0..n {
                            let j = (i + t / 2) % n;
                            out[j] = one(&calls[j]);
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        s.extend(outs.into_iter().flatten());
    } else {
        s.extend(calls.iter().map(one));
    }
    use std::io::Write;
    let _ = std::io::stdout().write_all(s.as_bytes());
    std::process::exit(0);
}

/// runs the calls in a process of their own; None if it did not end well
fn in_process(seed: u64, from: u64, to: u64, how: &dyn Fn(&mut std::process::Command)) -> Result<(u64, Vec<String>), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(exe);
    c.args(["--calls", &seed.to_string(), &from.to_string(), &to.to_string()]).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    how(&mut c);
    // a process that could not be started, or that was killed from outside, says nothing
    let mut tries = 0;
    let o = loop {
        use std::os::unix::process::ExitStatusExt;
        tries += 1;
        match c.output() {
            Err(_) if tries < 40 => {}
            Ok(o) if o.status.signal() == Some(9) && tries < 10 => {}
            o => break o.map_err(|e| e.to_string())?,
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    };
    if !o.status.success() {
        return Err(format!("the process ended with {}", o.status));
    }
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut l = t.lines();
    let now = l.next().and_then(|s| s.parse().ok()).ok_or("no output")?;
    Ok((now, l.map(|s| s.to_string()).collect()))
}

/// surroundings that no call may notice
const SURROUNDINGS: &[(&str, &[(&str, &str)])] = &[
    ("process, other time zone", &[("TZ", "Asia/Kathmandu"), ("PGTZ", "America/St_Johns")]),
    ("process, far time zone", &[("TZ", "<-14>14"), ("PGTZ", "UTC")]),
    ("process, other locale", &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_TIME", "ja_JP"), ("LANGUAGE", "fr")]),
    ("process, other date style", &[("PGDATESTYLE", "German, DMY"), ("DATESTYLE", "SQL, MDY"), ("PGOPTIONS", "-c intervalstyle=iso_8601")]),
    ("process, clock in 1971", &[("VMON_CLOCK_YEAR", "1971")]),
    ("process, clock in 1999", &[("VMON_CLOCK_YEAR", "1999")]),
    ("process, clock in 2071", &[("VMON_CLOCK_YEAR", "2071")]),
];

fn processes(run: &mut Run) {
    let seed = run.seed;
    // each call alone, first thing in a process
    run.shards(274, run.n(150, 1_500), |sh, r, _| {
        let j = r.below(1 << 40);
        let c = process_call(seed, j);
        let mine = format!("{:?}", c.guarded());
        sh.check("first call of a process", hash64(&[j]), || c.show(), || {
            let (_, l) = in_process(seed, j, j + 1, &|_| ())?;
            if l.len() == 1 && l[0] == format!("{:016x}", hash_str(&mine)) {
                Ok(())
            } else {
                Err(format!("{} here, something else as the first call of a process", mine))
            }
        });
    });
    // several threads that begin a process together
    run.shards(276, run.n(200, 1_000), |sh, r, _| {
        let j = r.below(1 << 40);
        let n = 6;
        let calls: Vec<Call> = (j..j + n).map(|j| process_call(seed, j)).collect();
        let mine: Vec<String> = calls.iter().map(|c| format!("{:?}", c.guarded())).collect();
        let k8 = *r.pick(&[2u64, 3, 4, 8]);
        // one process at a time, so that its threads have the processors to themselves
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let lock = ONE.lock();
        let got = in_process(seed, j, j + n, &|c| {
            c.arg(k8.to_string());
        });
        drop(lock);
        for (k, c) in calls.iter().enumerate() {
            sh.check("first calls of a process, many threads", hash64(&[j, k as u64]), || c.show(), || {
                let (_, l) = got.as_ref().map_err(|e| e.clone())?;
                let h = format!("{:016x}", hash_str(&mine[k]));
                if l.len() as u64 == k8 * n && (0..k8 as usize).all(|t| l[t * n as usize + k] == h) {
                    Ok(())
                } else {
                    Err(format!("{} here, something else on one of {} threads that begin a process", mine[k], k8))
                }
            });
        }
    });
    // many calls in other surroundings
    let n = run.n(12_000, 200_000);
    let shim = std::env::var("VMON_CLOCK_SHIM").unwrap_or_default();
    run.shards(275, 1, |sh, _, _| {
        let (what, vars) = match SURROUNDINGS.get(sh.id) {
            Some(x) => *x,
            None => ("process, other directory and no environment", &[("VMON_BARE", "1")] as &[(&str, &str)]),
        };
        let mut want = None;
        if let Some((_, y)) = vars.iter().find(|v| v.0 == "VMON_CLOCK_YEAR") {
            if shim.is_empty() {
                return;
            }
            want = y.parse::<i64>().ok();
        }
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64);
        let got = in_process(seed, 0, n, &|c| {
            for (k, v) in vars {
                c.env(k, v);
            }
            if let Some(y) = want {
                // the middle of that year
                c.env("LD_PRELOAD", &shim).env("VMON_CLOCK_SHIFT", ((y - 1970) * 31_556_952 + 15_000_000 - now).to_string());
            }
            if sh.id >= SURROUNDINGS.len() {
                c.env_clear().current_dir("/");
            }
        });
        let l = match got {
            Ok((t, l)) => {
                if let Some(y) = want {
                    if (t as i64 - ((y - 1970) * 31_556_952 + 15_000_000)).abs() > 86_400 * 30 {
                        sh.observe("clock did not move");
                        return;
                    }
                    sh.observe("clock moved");
                }
                l
            }
            Err(e) => {
                sh.check(what, 0, || what.to_string(), || Err(e.clone()));
                return;
            }
        };
        for j in 0..n {
            let c = process_call(seed, j);
            let mine = format!("{:?}", c.guarded());
            sh.check(what, hash64(&[j, 7]), || c.show(), || {
                if l.get(j as usize).is_some_and(|h| *h == format!("{:016x}", hash_str(&mine))) {
                    Ok(())
                } else {
                    Err(format!("{} here, something else in that process", mine))
                }
            });
        }
    });
    for (what, vars) in SURROUNDINGS {
        if vars[0].0 != "VMON_CLOCK_YEAR" {
            run.require(what, 1000);
        }
    }
    run.require("first call of a process", 500);
    run.require("first calls of a process, many threads", 500);
}

pub fn p27(run: &mut Run) {
    processes(run);
    run.rule = "batches of calls (all operations, parse-heavy) observed in order, reversed, shuffled, on fresh threads and on four threads at once; and every ordered pair of keywords at the same place in 18 sentence templates, after each other on one thread against each alone on a fresh thread; chains of calls that share most of their operands (same day or month, swapped operands, other style, unit or operation) against each alone; single calls as the first of a process, and thousands of calls in processes with another time zone, locale, style variables, directory or wall clock; all outcomes of one call must be equal; distinct by call".into();
    // batches
    run.shards(270, run.n(120, 4_000), |sh, r, i| {
        let k = 240;
        let calls: Vec<Call> = (0..k)
            .map(|_| {
                let op = loop {
                    let op = r.below(OPS.len() as u64) as usize;
                    if ops::is_parse(op) || r.chance(1, 3) {
                        break op;
                    }
                };
                let mut c = ops::call(r, op);
                if ops::is_parse(op) && r.chance(1, 2) {
                    c.text = sentence(r);
                }
                c
            })
            .collect();
        let order = |r: &mut Rng| {
            let mut o: Vec<usize> = (0..k).collect();
            for a in (1..k).rev() {
                o.swap(a, r.below(a as u64 + 1) as usize);
            }
            o
        };
        let first: Vec<Out> = calls.iter().map(|c| c.guarded()).collect();
        let mut runs: Vec<(&'static str, Vec<Out>)> = vec![];
        let mut rev: Vec<Out> = calls.iter().rev().map(|c| c.guarded()).collect();
        rev.reverse();
        runs.push(("same thread, reversed", rev));
        let apply = |o: &[usize], calls: &[Call]| {
            let mut out = vec![Out::Nil; calls.len()];
            for &j in o {
                out[j] = calls[j].guarded();
                if j % 7 == 0 {
                    std::thread::yield_now();
                }
            }
            out
        };
        let o = order(r);
        runs.push(("same thread, shuffled", apply(&o, &calls)));
        let o = order(r);
        let fresh = std::thread::scope(|s| s.spawn(|| apply(&o, &calls)).join());
        runs.push(("fresh thread, shuffled", fresh.expect("thread")));
        // four threads at once, each its own order
        let os: Vec<Vec<usize>> = (0..4).map(|_| order(r)).collect();
        let bar = Barrier::new(4);
        let both: Vec<Vec<Out>> = std::thread::scope(|s| {
            let hs: Vec<_> = os
                .iter()
                .map(|o| {
                    let (bar, calls) = (&bar, &calls);
                    s.spawn(move || {
                        bar.wait();
                        apply(o, calls)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for b in both {
            runs.push(("four threads at once", b));
        }
        // some of them all alone
        let alone: Vec<usize> = (0..if i % 4 == 0 { 60 } else { 10 }).map(|_| r.below(k as u64) as usize).collect();
        for &j in &alone {
            let o = isolated(&calls[j]);
            sh.check("alone on a fresh thread", 0, || calls[j].show(), || if o == first[j] { Ok(()) } else { Err(format!("alone {:?}, in a history {:?}", o, first[j])) });
        }
        for (how, outs) in &runs {
            for j in 0..k {
                sh.check(how, hash64(&[calls[j].op as u64, hash_str(&calls[j].text), calls[j].t[0] as u64, calls[j].v[0].key(), calls[j].d[0] as u64, calls[j].f.to_bits()]), || calls[j].show(), || {
                    if outs[j] == first[j] {
                        Ok(())
                    } else {
                        Err(format!("{:?} first, {:?} when {}", first[j], outs[j], how))
                    }
                });
            }
        }
    });
    // chains of calls that share most of their operands
    run.shards(272, run.n(2_500, 150_000), |sh, r, _| {
        let mut chain: Vec<Call> = vec![];
        let op = r.below(OPS.len() as u64) as usize;
        chain.push(ops::call(r, op));
        for k in 1..14 {
            let c = if k > 2 && r.chance(1, 5) {
                // an earlier one again
                chain[r.below(k as u64) as usize].clone()
            } else {
                ops::vary(r, &chain[k - 1])
            };
            chain.push(c);
        }
        let outs: Vec<Out> = chain.iter().map(|c| c.guarded()).collect();
        for (j, c) in chain.iter().enumerate() {
            let o = isolated(c);
            sh.check("chain of related calls", hash64(&[c.op as u64, hash_str(&c.text), c.t[0] as u64, c.v[0].key(), c.d[0] as u64, c.f.to_bits(), c.st as u64, c.unit as u64]), || chain[..=j].iter().map(|c| c.show()).collect::<Vec<_>>().join(" ; "), || {
                if o == outs[j] {
                    Ok(())
                } else {
                    Err(format!("{:?} in the chain, {:?} alone", outs[j], o))
                }
            });
        }
    });
    // ordered pairs of words at one place
    let words = words27();
    let cases: Vec<(usize, Vec<Call>)> = TEMPLATES
        .iter()
        .enumerate()
        .map(|(k, (what, t))| {
            let op = ops::op(match *what {
                "d" => "Date::try_from_str",
                "t" => "Timestamp::try_from_str",
                "m" => "Time::try_from_str",
                _ => "Interval::try_from_str",
            });
            let mut r = Rng::new(7, k as u64);
            let v = words
                .iter()
                .map(|w| {
                    let mut c = ops::call(&mut r, op);
                    c.or = Or::Mdy;
                    c.is = Is::Pg;
                    c.typmod = -1;
                    c.text = t.replace("{}", w);
                    c
                })
                .collect();
            (k, v)
        })
        .collect();
    let seed = run.seed;
    let full = run.tier_thorough;
    // reference outcomes: each call alone on its own thread
    let alone: Vec<Vec<Out>> = std::thread::scope(|s| {
        let hs: Vec<_> = cases.iter().map(|(_, v)| s.spawn(move || v.iter().map(isolated).collect::<Vec<Out>>())).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let nw = words.len();
    let total = cases.len() * nw;
    run.count("calls alone on a fresh thread (reference)", total as u64);
    run.shards(271, 1, |sh, _, _| {
        for (k, v) in &cases {
            if sh.stopped() {
                return;
            }
            let reference = &alone[*k];
            for a in 0..nw {
                // shards share the first words
                if a % SHARDS != sh.id {
                    continue;
                }
                for b in 0..nw {
                    if !full && (a * 31 + b * 17 + seed as usize + k) % 3 != 0 && !related(&words[a], &words[b]) {
                        continue;
                    }
                    let oa = v[a].run();
                    let ob = v[b].run();
                    let oc = v[a].run();
                    let accepted = ob != Out::Err;
                    sh.check(if accepted { "word after word, accepted" } else { "word after word, rejected" }, hash64(&[*k as u64, a as u64, b as u64]), || format!("{} then {} then the first again", v[a].show(), v[b].show()), || {
                        for (o, x, which) in [(&oa, a, "first"), (&ob, b, "second"), (&oc, a, "first again")] {
                            if *o != reference[x] {
                                return Err(format!("{}: {:?}, alone {:?}", which, o, reference[x]));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    for c in ["same thread, reversed", "same thread, shuffled", "fresh thread, shuffled", "four threads at once", "alone on a fresh thread", "chain of related calls", "word after word, accepted", "word after word, rejected"] {
        run.require(c, 1000);
    }
}

/// one is the beginning of the other, or they are spelled almost alike
fn related(a: &str, b: &str) -> bool {
    let n = a.len().min(b.len()).min(2);
    a[..n].eq_ignore_ascii_case(&b[..n]) || a.len() == b.len()
}

fn words27() -> Vec<String> {
    let mut w: Vec<String> = super::text2::KNOWN_WORDS.iter().map(|x| x.to_string()).collect();
    for x in ["microseconds", "milliseconds", "microsecond", "millisecondx", "centuriesx", "januar", "octobe", "dayz", "x", "q", "monda", "satu", "decembe", "hou", "minut", "yea", "ago1", "BCE", "JANUARY", "Days", "sEc", "infinit", "timezone_h", "undefine", "quarters", "millenniums"] {
        w.push(x.to_string());
    }
    w
}

fn sentence(r: &mut Rng) -> String {
    let (_, t) = *r.pick(TEMPLATES);
    let w = if r.chance(4, 5) { r.pick(super::text2::KNOWN_WORDS).to_string() } else { soup::text(r, Or::Mdy) };
    let w = if r.chance(1, 4) { recase(r, &w) } else { w };
    t.replace("{}", &w)
}
