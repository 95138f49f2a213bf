//! Workload driver, monitors' bookkeeping and verdicts.
//!
//! Every evaluation runs the real code inside `catch_unwind`, so an overflow,
//! index or assertion panic in the code under test is an observed event.
//! Verdicts are three-valued: held (exit 0), violated (exit 1 plus a
//! `VIOLATION` line), inconclusive (exit 2: nothing or too little observed).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
const MAX_VIOLATIONS: usize = 8;
const DISTINCT_CAP: usize = 400_000;

/// splitmix64 / xoshiro-like small generator.
#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(
            seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
            stream.wrapping_mul(0xBF58_476D_1CE4_E5B9) | 1,
        );
        for _ in 0..8 {
            r.u64();
        }
        r
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        self.1 = self.1.rotate_left(17).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ self.0;
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        // inclusive
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let v = (self.u64() as u128 * span) >> 64;
        (lo as i128 + v as i128) as i64
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    #[inline]
    pub fn unit_f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    }
    h ^ (h >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub shard: usize,
    pub eval: u64,
    pub class: String,
    pub text: String,
}

/// State visible to the watchdog.
struct Live {
    progress: AtomicU64,
    done: AtomicBool,
    tid: Mutex<String>,
    note: Mutex<String>,
}

pub struct Shard {
    pub id: usize,

    pub evals: u64,
    pub classes: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    live: Arc<Live>,
    stop: Arc<AtomicBool>,
    sampled: BTreeMap<&'static str, u32>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Calls the real code; a panic becomes Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

impl Shard {
    /// One monitored evaluation. `key` identifies the case for the distinct
    /// count (0: trivial, not counted).
    #[inline]
    pub fn check(
        &mut self,
        class: &'static str,
        key: u64,
        desc: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        self.evals += 1;
        self.live.progress.store(self.evals, Ordering::Relaxed);
        *self.classes.entry(class).or_insert(0) += 1;
        if key != 0 && self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(key);
        }
        let s = self.sampled.entry(class).or_insert(0);
        if *s < 1 {
            *s += 1;
            if self.samples.len() < 24 {
                self.samples.push(format!("{}: {}", class, desc()));
            }
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", last_panic())),
        };
        if let Err(e) = r {
            let text = format!("{} => {}", desc(), e);
            self.violations.push(Violation {
                shard: self.id,
                eval: self.evals,
                class: class.to_string(),
                text,
            });
            if self.violations.len() >= MAX_VIOLATIONS {
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }
    /// Progress without an evaluation.
    pub fn tick(&mut self) {
        self.evals += 1;
        self.live.progress.store(self.evals, Ordering::Relaxed);
    }
    /// Records the current input for the watchdog (and crash reports).
    pub fn note(&self, s: &str) {
        let mut n = self.live.note.lock().unwrap();
        n.clear();
        n.push_str(s);
    }
    pub fn observe(&mut self, class: &'static str) {
        *self.classes.entry(class).or_insert(0) += 1;
    }
    pub fn observe_n(&mut self, class: &'static str, n: u64) {
        *self.classes.entry(class).or_insert(0) += n;
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
}

pub struct Outcome {
    pub evals: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, String>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    distinct_set: HashSet<u64>,
}

pub struct Run {
    pub id: &'static str,
    pub tier_thorough: bool,
    pub seed: u64,
    pub out: Outcome,
    pub rule: String,
    pub required: Vec<(String, u64)>,
    pub start: Instant,
    pub scale: f64,
}

/// The cheap properties look further in the thorough tier.
fn deeper(id: &str) -> u64 {
    match id {
        "P04" => 3,
        "P05" | "P23" | "P25" | "P26" => 8,
        "P15" | "P16" | "P19" | "P22" => 20,
        "P02" | "P03" | "P17" | "P18" | "P20" => 40,
        _ => 1,
    }
}

impl Run {
    pub fn new(id: &'static str, thorough: bool, seed: u64) -> Self {
        let scale = std::env::var("VMON_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        Run {
            id,
            tier_thorough: thorough,
            seed,
            out: Outcome {
                evals: 0,
                distinct: 0,
                classes: BTreeMap::new(),
                samples: vec![],
                violations: vec![],
                known: BTreeMap::new(),
                extra: BTreeMap::new(),
                assumptions: vec![],
                exhaustive: false,
                distinct_set: HashSet::new(),
            },
            rule: String::new(),
            required: vec![],
            start: Instant::now(),
            scale,
        }
    }

    /// Number of iterations per shard for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let base = if self.tier_thorough { thorough * deeper(&self.id) } else { quick };
        ((base as f64 * self.scale) as u64).max(1)
    }

    pub fn require(&mut self, class: &str, min: u64) {
        // scaled-down runs (Miri, ASan smoke) only need to have seen the class.
        let m = if self.scale < 1.0 { 1 } else { min };
        self.required.push((class.to_string(), m));
    }

    /// Runs `body` on SHARDS threads, `n` iterations each, and merges what the
    /// monitors observed.
    pub fn shards(&mut self, label: u64, n: u64, body: impl Fn(&mut Shard, &mut Rng, u64) + Sync) {
        let stop = Arc::new(AtomicBool::new(false));
        let lives: Vec<Arc<Live>> = (0..SHARDS)
            .map(|_| {
                Arc::new(Live {
                    progress: AtomicU64::new(0),
                    done: AtomicBool::new(false),
                    tid: Mutex::new(String::new()),
                    note: Mutex::new(String::new()),
                })
            })
            .collect();
        let seed = self.seed;
        let id = self.id;
        let body = &body;
        let wd_stop = Arc::new(AtomicBool::new(false));
        let mut results: Vec<Shard> = Vec::new();
        std::thread::scope(|sc| {
            let wd = {
                let lives = lives.clone();
                let wd_stop = wd_stop.clone();
                if cfg!(miri) {
                    None
                } else {
                    Some(sc.spawn(move || watchdog(id, seed, &lives, &wd_stop)))
                }
            };
            let hs: Vec<_> = (0..SHARDS)
                .map(|k| {
                    let live = lives[k].clone();
                    let stop = stop.clone();
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            if !cfg!(miri) {
                                if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                                    *live.tid.lock().unwrap() = p.to_string_lossy().into_owned();
                                }
                            }
                            let mut sh = Shard {
                                id: k,

                                evals: 0,
                                classes: BTreeMap::new(),
                                distinct: HashSet::new(),
                                samples: vec![],
                                violations: vec![],
                                known: BTreeMap::new(),
                                live: live.clone(),
                                stop,
                                sampled: BTreeMap::new(),
                            };
                            let mut rng = Rng::new(seed, label.wrapping_mul(1000) + k as u64 + 1);
                            for i in 0..n {
                                if sh.stopped() {
                                    break;
                                }
                                body(&mut sh, &mut rng, i);
                            }
                            live.done.store(true, Ordering::Relaxed);
                            sh
                        })
                        .expect("spawn")
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok(s) => results.push(s),
                    Err(_) => {
                        eprintln!("harness thread failed: {}", last_panic());
                        std::process::exit(2);
                    }
                }
            }
            wd_stop.store(true, Ordering::Relaxed);
            if let Some(w) = wd {
                let _ = w.join();
            }
        });
        for s in results {
            self.out.evals += s.evals;
            for (c, n) in s.classes {
                *self.out.classes.entry(c.to_string()).or_insert(0) += n;
            }
            for (c, n) in s.known {
                *self.out.known.entry(c).or_insert(0) += n;
            }
            if s.id < 2 {
                self.out.samples.extend(s.samples.into_iter().take(12));
            }
            self.out.violations.extend(s.violations);
            if self.out.distinct_set.len() < 8 * DISTINCT_CAP {
                self.out.distinct_set.extend(s.distinct);
            }
        }
    }

    pub fn violation(&mut self, class: &str, text: String) {
        self.out.violations.push(Violation {
            shard: 0,
            eval: 0,
            class: class.to_string(),
            text,
        });
    }

    pub fn count(&mut self, class: &str, n: u64) {
        *self.out.classes.entry(class.to_string()).or_insert(0) += n;
    }

    /// Writes the evidence, prints the verdict, exits.
    pub fn finish(mut self) -> ! {
        self.out.distinct = self.out.distinct_set.len() as u64;
        let missing: Vec<String> = self
            .required
            .iter()
            .filter(|(c, m)| self.out.classes.get(c).copied().unwrap_or(0) < *m)
            .map(|(c, m)| {
                format!(
                    "{} (saw {}, need {})",
                    c,
                    self.out.classes.get(c).copied().unwrap_or(0),
                    m
                )
            })
            .collect();
        let wall = self.start.elapsed().as_secs_f64();
        println!(
            "{} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
            self.id,
            if self.tier_thorough { "thorough" } else { "quick" },
            self.seed,
            self.out.evals,
            self.out.distinct,
            wall
        );
        for (c, n) in &self.out.classes {
            println!("  observed {:<44} {}", c, n);
        }
        let nv = self.out.violations.len();
        self.write_evidence(wall);
        for (k, n) in &self.out.known {
            println!("KNOWN-FINDING: property={} {} (observed {} times)", self.id, k, n);
        }
        if nv > 0 {
            let replay = self.write_replay();
            for v in self.out.violations.iter().take(MAX_VIOLATIONS) {
                println!("  violated [{}] {}", v.class, clip(&v.text, 600));
            }
            println!("VIOLATION property={} replay={}", self.id, replay);
            std::process::exit(1);
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={}: too little observed: {}", self.id, missing.join("; "));
            std::process::exit(2);
        }
        println!("HELD property={} on everything explored", self.id);
        std::process::exit(0);
    }

    fn write_replay(&self) -> String {
        let dir = evidence_dir();
        let path = format!("{}/{}.replay.txt", dir, self.id);
        let mut s = String::new();
        let _ = writeln!(
            s,
            "property {} tier {} seed {}\nreplay: VERIF_SEED={} sh /verif/check {} {}",
            self.id,
            if self.tier_thorough { "thorough" } else { "quick" },
            self.seed,
            self.seed,
            self.id,
            if self.tier_thorough { "thorough" } else { "quick" },
        );
        for v in &self.out.violations {
            let _ = writeln!(s, "[{}] shard {} evaluation {}: {}", v.class, v.shard, v.eval, v.text);
        }
        let _ = std::fs::write(&path, s);
        path
    }

    fn write_evidence(&self, wall: f64) {
        let mut s = String::new();
        let mut samples: Vec<String> = self.out.samples.clone();
        samples.truncate(24);
        let classes: Vec<String> = self
            .out
            .classes
            .iter()
            .map(|(k, v)| format!("{}: {}", jstr(k), v))
            .collect();
        let extra: Vec<String> = self
            .out
            .extra
            .iter()
            .map(|(k, v)| format!(", {}: {}", jstr(k), v))
            .collect();
        let _ = write!(
            s,
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"exhaustive\": {},\n  \"observed\": {{{}}},\n  \"samples\": [{}]{}}},\n \"assumptions\": [{}],\n \"known_findings\": {}, \"wall_s\": {:.3}, \"violations\": {}}}\n",
            jstr(self.id),
            jstr(if self.tier_thorough { "thorough" } else { "quick" }),
            self.seed,
            self.out.evals,
            self.out.distinct,
            jstr(&self.rule),
            self.out.exhaustive,
            classes.join(", "),
            samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n   "),
            extra.join(""),
            self.out.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
            self.out.known.len(),
            wall,
            self.out.violations.len()
        );
        let path = format!("{}/{}.json", evidence_dir(), self.id);
        if !cfg!(miri) && std::env::var("VMON_NO_EVIDENCE").is_err() {
            if let Err(e) = std::fs::write(&path, s) {
                eprintln!("cannot write evidence {}: {}", path, e);
                std::process::exit(2);
            }
        }
    }
}

pub fn evidence_dir() -> String {
    std::env::var("VMON_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".to_string())
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Bounded progress, on CPU time of the thread: one evaluation normally takes
/// microseconds; one that burns 30 CPU seconds does not terminate.
fn watchdog(id: &'static str, seed: u64, lives: &[Arc<Live>], stop: &AtomicBool) {
    let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); lives.len()];
    while !stop.load(Ordering::Relaxed) {
        for _ in 0..10 {
            std::thread::sleep(Duration::from_millis(50));
            if stop.load(Ordering::Relaxed) {
                return;
            }
        }
        for (k, l) in lives.iter().enumerate() {
            if l.done.load(Ordering::Relaxed) {
                continue;
            }
            let p = l.progress.load(Ordering::Relaxed);
            let tid = l.tid.lock().unwrap().clone();
            let cpu = cpu_ticks(&tid);
            if cpu > 6000 && cpu / p.max(1) > 10 {
                // a minute of this thread's time at more than a tenth of a second a case: the cases are
                // worth microseconds, so single calls take a time out of all proportion to their input
                let note = l.note.lock().unwrap().clone();
                let path = format!("{}/{}.replay.txt", evidence_dir(), id);
                let what = format!("shard {}: {} CPU seconds for {} evaluations; last noted input {:?}", k, cpu / 100, p, note);
                let _ = std::fs::write(&path, format!("property {} seed {} {}\n", id, seed, what));
                println!("  violated [bounded progress] {}", what);
                println!("VIOLATION property={} replay={}", id, path);
                std::process::exit(1);
            }
            if p != last[k].0 {
                last[k] = (p, cpu);
            } else if cpu.saturating_sub(last[k].1) > 3000 && p > 0 {
                let note = l.note.lock().unwrap().clone();
                let path = format!("{}/{}.replay.txt", evidence_dir(), id);
                let _ = std::fs::write(
                    &path,
                    format!("property {} seed {} shard {} evaluation {}: no return after 30 CPU seconds; input {:?}\n", id, seed, k, p, note),
                );
                println!("  violated [bounded progress] shard {} evaluation {} did not return after 30 CPU seconds; input {:?}", k, p, note);
                println!("VIOLATION property={} replay={}", id, path);
                std::process::exit(1);
            }
        }
    }
}

fn cpu_ticks(thread_self: &str) -> u64 {
    // thread_self is "<pid>/task/<tid>" of this process
    let s = match std::fs::read_to_string(format!("/proc/{}/stat", thread_self)) {
        Ok(s) => s,
        Err(_) => return 0,
    };
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0,
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0);
    let k: u64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    u + k
}
