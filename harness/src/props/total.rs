//! P11 parsing is total, P29 operations are total; both against a second build
//! of the same code without assertions. P12 workload for the sanitizers.

use super::*;
use crate::core::*;
use crate::gen;
use crate::iv::mk;
use crate::ops::{self, Out, OPS};
use crate::soup;
use std::io::{Read, Write};
use std::process::Command;

pub fn rng_at(seed: u64, label: u64, shard: usize, i: u64) -> Rng {
    Rng::new(seed ^ hash64(&[label, shard as u64]), i.wrapping_mul(2).wrapping_add(label << 40))
}

// ---- cases -------------------------------------------------------------------

pub struct PCase {
    pub text: String,
    pub class: &'static str,
    pub or: Or,
    pub is: Is,
    pub typmod: i32,
}

pub fn pcase(r: &mut Rng) -> PCase {
    let or = *r.pick(&ORDERS);
    let (text, class) = soup::text_class(r, or);
    PCase {
        text,
        class,
        or,
        is: *r.pick(&ISTYLES),
        typmod: match r.below(6) {
            0 | 1 => -1,
            2 => r.range(0, 6) as i32,
            3 => gen::i32_any(r),
            4 => r.u64() as i32,
            _ => {
                let rg = r.pick(&crate::ispell::RANGES);
                crate::ispell::typmod(rg, r.range(0, 6) as i32)
            }
        },
    }
}

fn pouts(c: &PCase) -> [Out; 4] {
    let g = |f: &dyn Fn() -> Result<Out, DateTimeError>| match guarded(|| match f() {
        Ok(o) => o,
        Err(e) => {
            // the error can be displayed and copied
            let e2 = e.clone();
            if e.to_string().is_empty() || e2 != e || format!("{:?}", e).is_empty() {
                Out::Panic("error without a message".into())
            } else {
                Out::Err
            }
        }
    }) {
        Ok(o) => o,
        Err(p) => Out::Panic(p),
    };
    [
        g(&|| Date::try_from_str(&c.text, c.or.real()).map(|x| Out::D(dv(x)))),
        g(&|| Timestamp::try_from_str(&c.text, c.typmod, c.or.real()).map(|x| Out::T(tv(x)))),
        g(&|| Time::try_from_str(&c.text, c.typmod, c.or.real()).map(|x| Out::M(tmv(x)))),
        g(&|| Interval::try_from_str(&c.text, c.typmod, c.is.real()).map(|x| Out::I(crate::iv::rd(x)))),
    ]
}

const WHAT: [&str; 4] = ["date", "timestamp", "time", "interval"];

fn fold(os: &[Out]) -> u32 {
    let v: Vec<u64> = os.iter().map(|o| o.digest() as u64).collect();
    let h = hash64(&v);
    (h ^ (h >> 32)) as u32
}

pub fn ocall(r: &mut Rng) -> ops::Call {
    loop {
        let op = r.below(OPS.len() as u64) as usize;
        if !ops::is_parse(op) {
            return ops::call(r, op);
        }
    }
}

/// outcomes of case i, as the two builds compare them
fn outs(id: &str, r: &mut Rng) -> (Vec<Out>, String) {
    if id == "P11" {
        let c = pcase(r);
        let o = pouts(&c).to_vec();
        let s = format!("{:?} {:?} {:?} typmod {}", c.text, c.or, c.is, c.typmod);
        (o, s)
    } else {
        let c = ocall(r);
        (vec![c.guarded()], c.show())
    }
}

// ---- the plain build -----------------------------------------------------------

/// `--digest ID label n seed path`: one word per case
pub fn digest_main(a: &[String]) -> ! {
    let id: &'static str = if a[0] == "P11" { "P11" } else { "P29" };
    let (label, n, seed): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut run = Run::new(id, false, seed);
    let slots: Vec<std::sync::Mutex<Vec<u32>>> = (0..SHARDS).map(|_| std::sync::Mutex::new(Vec::with_capacity(n as usize))).collect();
    run.shards(label, n, |sh, _, i| {
        let mut r = rng_at(seed, label, sh.id, i);
        let f = if id == "P11" {
            let c = pcase(&mut r);
            sh.note(&c.text);
            sh.tick();
            fold(&pouts(&c))
        } else {
            let c = ocall(&mut r);
            sh.tick();
            fold(&[c.guarded()])
        };
        slots[sh.id].lock().unwrap().push(f);
    });
    let mut bytes = Vec::with_capacity(n as usize * SHARDS * 4);
    for s in slots {
        for w in s.lock().unwrap().iter() {
            bytes.extend_from_slice(&w.to_le_bytes());
        }
    }
    if std::fs::File::create(&a[4]).and_then(|mut f| f.write_all(&bytes)).is_err() {
        std::process::exit(2);
    }
    std::process::exit(0);
}

/// `--one ID label seed shard i`: what this build makes of one case
pub fn one_main(a: &[String]) -> ! {
    let p = |k: usize| a[k].parse::<u64>().unwrap();
    let mut r = rng_at(p(2), p(1), p(3) as usize, p(4));
    let (o, s) = outs(&a[0], &mut r);
    println!("{} => {:?}", s, o);
    std::process::exit(0);
}

/// words of the plain build, SHARDS * n of them
fn plain_build(id: &str, label: u64, n: u64, seed: u64) -> Vec<u32> {
    let exe = match std::env::var("VMON_SHIP") {
        Ok(e) => e,
        Err(_) => {
            println!("INCONCLUSIVE property={}: VMON_SHIP is not set", id);
            std::process::exit(2);
        }
    };
    let path = format!("{}/{}.ship.{}", evidence_dir(), id, std::process::id());
    let st = Command::new(&exe).args(["--digest", id, &label.to_string(), &n.to_string(), &seed.to_string(), &path]).status();
    match st.map(|s| (s.code(), std::os::unix::process::ExitStatusExt::signal(&s))) {
        Ok((Some(0), _)) => {}
        Ok((Some(1), _)) => std::process::exit(1), // has printed its violation
        Ok((_, Some(sig))) if [4, 5, 6, 7, 8, 11].contains(&sig) => {
            let replay = format!("{}/{}.replay.txt", evidence_dir(), id);
            let _ = std::fs::write(&replay, format!("property {} seed {}: the release build was killed by signal {} in round {} of {} cases\n", id, seed, sig, label, n));
            println!("VIOLATION property={} replay={}", id, replay);
            std::process::exit(1);
        }
        other => {
            println!("INCONCLUSIVE property={}: the release build ended with {:?}", id, other);
            std::process::exit(2);
        }
    }
    let mut b = vec![];
    let ok = std::fs::File::open(&path).and_then(|mut f| f.read_to_end(&mut b)).is_ok();
    let _ = std::fs::remove_file(&path);
    if !ok || b.len() as u64 != n * SHARDS as u64 * 4 {
        println!("INCONCLUSIVE property={}: the release build reported {} bytes", id, b.len());
        std::process::exit(2);
    }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

fn same_as_plain(id: &str, label: u64, seed: u64, shard: usize, i: u64, mine: &[Out], theirs: u32) -> Result<(), String> {
    if fold(mine) == theirs {
        return Ok(());
    }
    let exe = std::env::var("VMON_SHIP").unwrap_or_default();
    let o = Command::new(exe).args(["--one", id, &label.to_string(), &seed.to_string(), &shard.to_string(), &i.to_string()]).output();
    let t = o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    Err(format!("debug build gives {:?}; release build gives {}", mine, t.trim()))
}

pub fn p11(run: &mut Run) {
    run.rule = "well-formed, damaged, spliced, over-long and arbitrary texts with arbitrary precision arguments, each parsed as date, timestamp, time and interval; every outcome must be a supported value or a displayable error, and the same in an assertion-checked and in a plain release build; distinct by text".into();
    let seed = run.seed;
    let (rounds, n) = if run.tier_thorough { (60, 500_000) } else { (1, 250_000) };
    for round in 0..rounds {
        let label = 2000 + round;
        let plain = plain_build("P11", label, n, seed);
        run.shards(label, n, |sh, _, i| {
            let mut r = rng_at(seed, label, sh.id, i);
            let c = pcase(&mut r);
            sh.note(&c.text);
            let os = pouts(&c);
            for (k, o) in os.iter().enumerate() {
                if *o != Out::Err {
                    sh.observe(["accepted as date", "accepted as timestamp", "accepted as time", "accepted as interval"][k]);
                }
            }
            if os.iter().all(|o| *o == Out::Err) {
                sh.observe("rejected by all four parsers");
            }
            let theirs = plain[sh.id * n as usize + i as usize];
            let id = sh.id;
            sh.check(c.class, hash_str(&c.text), || format!("{:?} {:?} {:?} typmod {}", clip(&c.text, 300), c.or, c.is, c.typmod), || {
                for (k, o) in os.iter().enumerate() {
                    if let Out::Panic(p) = o {
                        return Err(format!("as {}: panicked: {}", WHAT[k], p));
                    }
                    if !o.in_range() {
                        return Err(format!("as {}: {:?} is outside the supported range", WHAT[k], o));
                    }
                }
                same_as_plain("P11", label, seed, id, i, &os, theirs)
            });
        });
        if !run.out.violations.is_empty() {
            break;
        }
    }
    // a few texts of a megabyte
    run.shards(2999, 3, |sh, r, i| {
        let c = ["1", "a", " ", "1 ", "-", "5 days ", "\u{e9}", "1:", ".", "P", "P1D", "a1"][(sh.id + i as usize * 8) % 12];
        let big = c.repeat(1_000_000 / c.len() + r.below(9) as usize);
        sh.note(c);
        sh.check("a megabyte", hash_str(&big), || format!("a megabyte of {:?}", c), || {
            let pc = PCase { text: big.clone(), class: "", or: *r.pick(&ORDERS), is: *r.pick(&ISTYLES), typmod: -1 };
            for (k, o) in pouts(&pc).iter().enumerate() {
                if let Out::Panic(p) = o {
                    return Err(format!("as {}: panicked: {}", WHAT[k], p));
                }
                if *o != Out::Err && c.trim() != "" {
                    // nothing that long can be accepted: its field does not fit the buffer
                    if !o.in_range() {
                        return Err(format!("as {}: {:?}", WHAT[k], o));
                    }
                }
            }
            Ok(())
        });
    });
    long_in(run);
    for c in ["well-formed", "damaged", "spliced", "at the size limits", "arbitrary characters", "token soup", "damaged token soup", "accepted as date", "accepted as timestamp", "accepted as time", "accepted as interval", "rejected by all four parsers", "a megabyte"] {
        run.require(c, if c == "a megabyte" { 12 } else { 500 });
    }
}

// ---- long texts --------------------------------------------------------------

const PIECES: &[&str] = &[
    " ", "\t", "\n", " \r", ",", ", ", ";", "/", "1", "0", "a", "z ", "1 ", "- ", "-", "+", "+-", ".", "..", ":", "1:", "1.", "1/", "1-", "jan", "jan ", "am ", "bc ", "ago ", "at ", "on,", "days ", "5 days ", "1d", "P", "T", "P1D", "1Y", "1W2D", "T1H",
    "mon, ", "j", "\u{e9}", "(", "[]", "\0", "_", "'", "\u{3000}", "@ ", "1-2 ", "t", "z", "-1 ",
];

/// one piece over and over, alone and between the halves of a good text
fn long_texts() -> Vec<(String, String)> {
    let mut v = vec![];
    for p in PIECES {
        let big = p.repeat(200_000 / p.len());
        for (a, b) in [("", ""), ("2020-01-02", "03:04:05"), ("P1Y", "2M"), ("1 day", "2 hours"), ("12:30", "pm"), ("j", "5")] {
            if a.is_empty() || p.trim().len() < p.len() || p.as_bytes()[0].is_ascii_punctuation() || p.as_bytes()[0] == b'0' {
                v.push((format!("{:?} {:?} over and over {:?}", a, p, b), format!("{}{}{}", a, big, b)));
            }
        }
    }
    v
}

/// `--long part of`: parses them on threads with the usual stack, tells where it is
pub fn long_main(a: &[String]) -> ! {
    let p = |k: usize| a[k].parse::<usize>().unwrap();
    let (part, of) = (p(0), p(1));
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        for (k, (name, text)) in long_texts().into_iter().enumerate() {
            if k % of != part {
                continue;
            }
            println!("at {}", name);
            let c = PCase { text, class: "", or: ORDERS[k % 3], is: ISTYLES[k % ISTYLES.len()], typmod: -1 };
            for (w, o) in pouts(&c).iter().enumerate() {
                match o {
                    Out::Panic(p) => println!("bad as {}: panicked: {}", WHAT[w], clip(p, 300)),
                    o if !o.in_range() => println!("bad as {}: {:?}", WHAT[w], o),
                    _ => {}
                }
            }
        }
        println!("done");
    });
    let _ = h.expect("thread").join();
    std::process::exit(0);
}

/// Runs the long texts in eight processes of each build: a stack that overflows ends a process.
fn long_in(run: &mut Run) {
    let unopt = std::env::var("VMON_UNOPT").unwrap_or_default();
    let ship = std::env::var("VMON_SHIP").unwrap_or_default();
    let own = std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let texts = long_texts().len();
    for (class, exe) in [("long text, build without optimisation", unopt), ("long text, assertion-checked build", own), ("long text, release build", ship)] {
        run.shards(2998, 1, |sh, _, _| {
            let (part, of) = (sh.id.to_string(), SHARDS.to_string());
            sh.note(class);
            let mut tries = 0;
            let (out, st) = loop {
                tries += 1;
                match Command::new("timeout").args(["-s", "KILL", "300", &exe, "--long", &part, &of]).output() {
                    Ok(o) => {
                        use std::os::unix::process::ExitStatusExt;
                        let sig = o.status.signal().or(o.status.code().filter(|c| *c > 128).map(|c| c - 128));
                        if sig == Some(9) && tries < 3 {
                            continue;
                        }
                        break (String::from_utf8_lossy(&o.stdout).into_owned(), sig);
                    }
                    Err(_) if tries < 3 => continue,
                    Err(e) => {
                        println!("INCONCLUSIVE property=P11: cannot start {}: {}", exe, e);
                        std::process::exit(2);
                    }
                }
            };
            let mut at = "";
            let mut bad: Option<(String, String)> = None;
            let mut seen = vec![];
            let mut done = false;
            for l in out.lines() {
                if let Some(n) = l.strip_prefix("at ") {
                    at = n;
                    seen.push(n);
                } else if let Some(b) = l.strip_prefix("bad ") {
                    bad.get_or_insert((at.to_string(), b.to_string()));
                } else if l == "done" {
                    done = true;
                }
            }
            for n in &seen {
                let last = *n == at;
                sh.check(class, hash_str(n) ^ hash_str(class), || n.to_string(), || {
                    if let Some((a, b)) = &bad {
                        if a == n {
                            return Err(b.clone());
                        }
                    }
                    if last && !done {
                        return Err(format!("the process ended in the middle of it, signal {:?}", st));
                    }
                    Ok(())
                });
            }
        });
        run.require(class, texts as u64);
    }
}

pub fn p29(run: &mut Run) {
    run.rule = "every value operation on boundary-heavy valid values (infinities included) with arbitrary arguments; no panic, no loop, and the same outcome in an assertion-checked and in a plain release build; distinct by operands".into();
    let seed = run.seed;
    let (rounds, n) = if run.tier_thorough { (100, 1_000_000) } else { (2, 400_000) };
    for round in 0..rounds {
        let label = 4000 + round;
        let plain = plain_build("P29", label, n, seed);
        run.shards(label, n, |sh, _, i| {
            let mut r = rng_at(seed, label, sh.id, i);
            let c = ocall(&mut r);
            let o = c.guarded();
            if o == Out::Err {
                sh.observe("an error");
            } else {
                sh.observe("a value");
            }
            let theirs = plain[sh.id * n as usize + i as usize];
            let id = sh.id;
            sh.check(c.name(), hash64(&[c.op as u64, c.d[0] as u64, c.t[0] as u64, c.m[0] as u64, c.v[0].key(), c.v[1].key(), c.f.to_bits(), c.n[0] as u64]), || c.show(), || {
                match &o {
                    Out::Panic(p) => return Err(format!("panicked: {}", p)),
                    Out::S(s) if std::str::from_utf8(s.as_bytes()).is_err() || s.is_empty() => return Err(format!("not a text: {:?}", s.as_bytes())),
                    _ => {}
                }
                same_as_plain("P29", label, seed, id, i, &[o.clone()], theirs)
            });
        });
        if !run.out.violations.is_empty() {
            break;
        }
    }
    // the + operator: exact when it fits, a panic when it does not
    run.shards(4999, run.n(20_000, 500_000), |sh, r, _| {
        let a = crate::iv::Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r));
        let b = crate::iv::Iv::new(gen::i32_any(r), gen::i32_any(r), gen::i64_any(r));
        let want = match (a.m.checked_add(b.m), a.d.checked_add(b.d), a.t.checked_add(b.t)) {
            (Some(m), Some(d), Some(t)) => Some(crate::iv::Iv::new(m, d, t)),
            _ => None,
        };
        sh.check(if want.is_some() { "+ that fits" } else { "+ that overflows" }, hash64(&[a.key(), b.key()]), || format!("{:?} + {:?}", a, b), || {
            match (guarded(|| crate::iv::rd(mk(a) + mk(b))), want) {
                (Ok(x), Some(w)) => eq(x, w),
                (Err(p), Some(_)) => Err(format!("panicked: {}", p)),
                (Ok(x), None) => Err(format!("wrapped to {:?}", x)),
                (Err(_), None) => Ok(()),
            }
        });
    });
    for o in OPS.iter().filter(|o| !o.1.starts_with('"')) {
        run.require(o.0, 500);
    }
    for c in ["a value", "an error", "+ that fits", "+ that overflows"] {
        run.require(c, 500);
    }
}

// ---- P12 -----------------------------------------------------------------------

/// one monitored case of the P12 workload; the class it belongs to
fn san_case(r: &mut Rng, kind: u64) -> (String, u64, String, Result<(), String>) {
    match kind % 3 {
        0 => {
            let c = pcase(r);
            // values and error messages alike are printed and compared inside
            let _ = pouts(&c);
            (c.class.to_string(), hash_str(&c.text), format!("{:?}", clip(&c.text, 200)), Ok(()))
        }
        1 => {
            let c = ocall(r);
            let res = match &c.guarded() {
                Out::S(s) => text_ok(s),
                _ => Ok(()),
            };
            let key = hash64(&[c.op as u64, c.d[0] as u64, c.t[0] as u64, c.m[0] as u64, c.v[0].key(), c.f.to_bits()]);
            (c.name().to_string(), key, c.show(), res)
        }
        _ => {
            let (n, v, t) = (gen::day(r), if r.chance(1, 20) { gen::ts_inf(r) } else { gen::ts(r) }, gen::tod(r));
            let iv = gen::iv(r);
            let (st, or, is) = (*r.pick(&STYLES), *r.pick(&ORDERS), *r.pick(&ISTYLES));
            let res = guarded(|| print_all(n, v, t, iv, st, or, is)).unwrap_or(Ok(()));
            ("printed in every type".into(), hash64(&[n as u64, v as u64, t as u64, iv.key()]), format!("{} {} {:?} {:?} {:?}", n, v, iv, st, is), res)
        }
    }
}

fn print_all(n: i64, v: i64, t: i64, iv: crate::iv::Iv, st: St, or: Or, is: Is) -> Result<(), String> {
    for s in [d(n).format(st.real(), or.real()), ts(v).format(st.real(), or.real()), tm(t).format(st.real()), mk(iv).format(is.real())].iter().flatten() {
        text_ok(s)?;
    }
    Ok(())
}

/// What the sanitizers watch: everything, on everything. Panics are the
/// business of P11 and P29; here only bad memory, bad values and bad text count.
pub fn p12(run: &mut Run) {
    run.rule = "hostile and well-formed texts through all four parsers, every operation on boundary values, printing in every style, from eight threads, with checked unsafe preconditions and enum values; the same workload, one thread per process, under Miri, AddressSanitizer and (thorough) memcheck, counts in the layer entries; distinct by text or operands".into();
    let n = run.n(300_000, 10_000_000);
    run.shards(500, n, |sh, r, i| {
        let (class, key, desc, res) = san_case(r, i);
        sh.note(&desc);
        sh.check(leak(class), key, || desc.clone(), || res.clone());
    });
    for c in ["well-formed", "damaged", "arbitrary characters", "at the size limits", "printed in every type", "Timestamp::age", "Interval::mul_f64"] {
        run.require(c, 50);
    }
    // what the processes under Miri, AddressSanitizer and memcheck reported
    if let Ok(dir) = std::env::var("VMON_LAYERS") {
        let names = std::env::var("VMON_LAYER_NAMES").unwrap_or_default();
        let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            let layer = f.file_name().unwrap().to_string_lossy().split('.').next().unwrap().to_string();
            for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
                if let Some((c, n)) = l.strip_prefix("SAN ").and_then(|l| l.rsplit_once(' ')) {
                    run.count(&format!("{}: {}", layer, c), n.parse().unwrap_or(0));
                }
            }
        }
        for l in names.split_whitespace() {
            for c in ["a known word", "every operation", "printed at the ends of the range", "at random", "two threads at once"] {
                run.require(&format!("{}: {}", l, c), 1);
            }
        }
    }
}

fn leak(s: String) -> &'static str {
    use std::collections::HashMap;
    thread_local!(static M: std::cell::RefCell<HashMap<String, &'static str>> = Default::default());
    M.with(|m| *m.borrow_mut().entry(s).or_insert_with_key(|k| Box::leak(k.clone().into_boxed_str())))
}

/// `--sanitize seed part parts seconds`: the workload for one process under a
/// memory checker. The process reports what it did; the checker judges.
pub fn sanitize_main(a: &[String]) -> ! {
    let p = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, part, parts, secs) = (p(0), p(1), p(2), p(3));
    let start = std::time::Instant::now();
    let late = || start.elapsed().as_secs() >= secs;
    let mut r = Rng::new(seed, 77_000 + part);
    let mut n = [0u64; 5];
    let bad = |what: &str, desc: &str, e: String| {
        println!("SAN-VIOLATION {} {}: {}", what, desc, e);
        std::process::exit(1);
    };
    // first of all the fixed list, split over the processes
    for (i, op) in (0..OPS.len()).enumerate() {
        if i as u64 % parts == part {
            let c = ops::call(&mut r, op);
            if let Out::S(s) = c.guarded() {
                if let Err(e) = text_ok(&s) {
                    bad("op", &c.show(), e);
                }
            }
            n[1] += 1;
        }
    }
    use crate::model::{DMAX, DMIN, TMAX, TMIN};
    let mut i = 0;
    for st in STYLES {
        for or in ORDERS {
            for is in ISTYLES {
                i += 1;
                if i % parts != part {
                    continue;
                }
                for (dd, t, m, v) in [
                    (DMIN, TMIN, 0, crate::iv::Iv::new(i32::MIN + 1, i32::MIN + 1, i64::MIN + 1)),
                    (DMAX, TMAX, 86_399_999_999, crate::iv::Iv::new(i32::MAX, i32::MAX, i64::MAX)),
                    (i32::MIN as i64, i64::MIN, 86_400_000_000, crate::iv::Iv::new(-14, -3, -7_384_000_001)),
                    (i32::MAX as i64, i64::MAX, 1, crate::iv::Iv::new(0, 0, 0)),
                ] {
                    if let Ok(Err(e)) = guarded(|| print_all(dd, t, m, v, st, or, is)) {
                        bad("print", &format!("{} {} {} {:?}", dd, t, m, v), e);
                    }
                    n[2] += 1;
                }
            }
        }
    }
    let words = crate::props::text2::KNOWN_WORDS;
    for (i, w) in words.iter().enumerate() {
        if i as u64 % parts == part {
            let _ = guarded(|| {
                let o = DateOrder::YMD;
                let _ = Timestamp::try_from_str(w, -1, o);
                let _ = Timestamp::try_from_str(&format!("2001-02-03 04:05 {}", w), -1, o);
                let _ = Date::try_from_str(&format!("{} 08 1999", w), o);
                let _ = Time::try_from_str(&format!("04:05:06 {}", w), -1, o);
                let _ = Interval::try_from_str(&format!("5 {} 3", w), -1, IntervalStyle::Postgres);
                let _ = Interval::try_from_str(w, -1, IntervalStyle::ISO8601);
            });
            n[0] += 1;
        }
    }
    let mut k = part;
    while !late() || n[4] == 0 {
        k += 1;
        let (_, _, desc, res) = san_case(&mut r, k);
        if let Err(e) = res {
            bad("random", &desc, e);
        }
        if k % 16 == 0 {
            // two threads at once, which end with their thread-local caches
            let s = r.u64();
            let t = std::thread::spawn(move || san_case(&mut Rng::new(s, 1), 0));
            let _ = san_case(&mut Rng::new(s, 2), 0);
            let _ = t.join();
            n[4] += 1;
        }
        n[3] += 1;
    }
    for (c, n) in ["a known word", "every operation", "printed at the ends of the range", "at random", "two threads at once"].iter().zip(n) {
        println!("SAN {} {}", c, n);
    }
    std::process::exit(0);
}

fn text_ok(s: &str) -> Result<(), String> {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err(format!("a String that is not UTF-8: {:?}", s.as_bytes()));
    }
    if s.is_empty() {
        return Err("an empty text".into());
    }
    Ok(())
}
