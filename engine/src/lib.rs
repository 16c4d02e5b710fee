//! A small property-based testing engine.
//!
//! A case is a pure function of a sequence of bounded integers ("choices"). Random search draws them from
//! a generator seeded by (VERIF_SEED, property, scenario, case index); shrinking edits the sequence;
//! a replay file is the sequence. Cases run in fresh threads so that thread-local generators of the code
//! under test start from the per-case seed of the patched `getrandom`.
#![allow(clippy::new_without_default)]
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod bounds;
pub mod guided;
pub mod rng;
pub use rng::Sm;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: {:?} != {:?}", format!($($f)*), a, b)); }
    }};
}
#[macro_export]
macro_rules! tr {
    ($c:expr, $($a:tt)*) => { if let Some(t) = $c.trace.as_mut() { if t.len() < 400 { t.push(format!($($a)*)); } } };
}

enum Source {
    Rand(Sm),
    Replay(Vec<u64>),
    /// Given values, then random ones (or zeros).
    Mixed(Vec<u64>, Option<Sm>),
}

/// Source of choices.
pub struct Gen {
    src: Source,
    pub rec: Vec<u64>,
    /// The bounds of the choices, kept for guided search.
    max: Option<Vec<u64>>,
    /// Where every choice is written at once, for cases that end the process.
    log: Option<std::fs::File>,
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { src: Source::Rand(Sm::new(seed)), rec: Vec::new(), max: None, log: None }
    }
    pub fn replay(v: Vec<u64>) -> Gen {
        Gen { src: Source::Replay(v), rec: Vec::new(), max: None, log: None }
    }
    pub fn mixed(v: Vec<u64>, then: Option<u64>) -> Gen {
        Gen { src: Source::Mixed(v, then.map(Sm::new)), rec: Vec::new(), max: Some(Vec::new()), log: None }
    }
    /// A choice in `0..=max`. The simplest value is 0.
    #[inline]
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.src {
            Source::Rand(r) => {
                if max == u64::MAX {
                    r.next()
                } else {
                    ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Source::Replay(v) => {
                let x = v.get(self.rec.len()).copied().unwrap_or(0);
                x.min(max)
            }
            Source::Mixed(v, then) => match (v.get(self.rec.len()), then) {
                (Some(&x), _) if x <= max => x,
                (Some(&x), _) => x % (max + 1),
                (None, Some(r)) => {
                    if max == u64::MAX {
                        r.next()
                    } else {
                        ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64
                    }
                }
                (None, None) => 0,
            },
        };
        self.rec.push(v);
        if let Some(f) = self.log.as_mut() {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        if let Some(m) = self.max.as_mut() {
            m.push(max);
        }
        v
    }
    /// `0..n`
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n - 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `a..=b`
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.upto(b - a)
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        // zero-centred when the range contains zero, so that shrinking goes to small magnitudes
        if a <= 0 && 0 <= b {
            let m = (-(a as i128)).max(b as i128) as u64;
            let mag = self.upto(m) as i64;
            let neg = self.upto(1) == 1;
            let v = if neg { -mag } else { mag };
            v.max(a).min(b)
        } else {
            a + self.upto((b - a) as u64) as i64
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.upto(u64::MAX)
    }
    /// True with probability num/den; false is the simpler value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.idx(v.len())]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        0
    }
    /// Continue a sequence whose expected further length is `avg`; stopping is the simpler value.
    pub fn more(&mut self, avg: u64) -> bool {
        self.below(avg + 1) != 0
    }
    /// Log-uniform integer in `a..=b`, a >= 1.
    pub fn logr(&mut self, a: u64, b: u64) -> u64 {
        let t = self.below(4097) as f64 / 4096.0;
        let v = (a as f64) * ((b as f64) / (a as f64)).powf(t);
        let lo = (v.floor() as u64).clamp(a, b);
        // jitter inside the step, so that every integer is reachable
        let hi = ((v * ((b as f64) / (a as f64)).powf(1.0 / 4096.0)).ceil() as u64).clamp(lo, b);
        self.range(lo, hi)
    }
    pub fn logu(&mut self, a: usize, b: usize) -> usize {
        self.logr(a as u64, b as u64) as usize
    }
    /// Uniform in [a,b] on a grid of 2^20 steps.
    pub fn unit(&mut self, a: f64, b: f64) -> f64 {
        let t = self.below((1 << 20) + 1) as f64 / (1u64 << 20) as f64;
        a + (b - a) * t
    }
    /// Log-uniform float in [a,b].
    pub fn flog(&mut self, a: f64, b: f64) -> f64 {
        let t = self.below((1 << 20) + 1) as f64 / (1u64 << 20) as f64;
        (a.ln() + (b.ln() - a.ln()) * t).exp()
    }
    /// A seed for bulk data or a hash builder: expanded deterministically by the case itself. Equal choices at
    /// different places give different seeds, so that shrinking never makes independent streams the same.
    pub fn seed(&mut self) -> u64 {
        let at = self.rec.len() as u64;
        rng::mix(self.u64() ^ rng::mix(at.wrapping_mul(0xd134_2543_de82_ef95).wrapping_add(0x2545_f491_4f6c_dd1d)))
    }
}

/// The state of a running case.
pub struct Case {
    pub g: Gen,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub excluded: u64,
    pub trace: Option<Vec<String>>,
}

impl Case {
    fn new(g: Gen, verbose: bool) -> Case {
        Case { g, labels: BTreeMap::new(), nontrivial: false, excluded: 0, trace: if verbose { Some(Vec::new()) } else { None } }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) = 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// Marks the case as non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub struct Scenario {
    pub name: &'static str,
    pub cases: u64,
    /// Multiplier of `cases` in the thorough tier.
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
}

pub struct KnownProbe {
    /// Exact signature, as in the known-findings file.
    pub sig: &'static str,
    pub what: &'static str,
    /// Ok = the listed input behaves correctly now; Err = it still fails.
    pub f: fn() -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
    pub known: Vec<KnownProbe>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs `f`, returning its panic message if it panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_: Box<dyn Any + Send>| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Outcome {
    pub res: R,
    pub rec: Vec<u64>,
    pub max: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub excluded: u64,
    pub trace: Vec<String>,
    /// The case was stopped at a bound and its thread never ends.
    pub over: bool,
    /// Instrumented steps, in a build that counts them.
    pub steps: u64,
    /// The most bytes the thread held.
    pub heap: i64,
}

/// Runs one case on the current thread.
pub fn run_here(f: fn(&mut Case) -> R, g: Gen, entropy: u64, verbose: bool) -> Outcome {
    getrandom::det_seed(entropy);
    let mut c = Case::new(g, verbose);
    bounds::watch(&c.g.rec);
    let res = match catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    Outcome {
        res,
        rec: c.g.rec,
        max: c.g.max.unwrap_or_default(),
        labels: c.labels,
        nontrivial: c.nontrivial,
        excluded: c.excluded,
        trace: c.trace.unwrap_or_default(),
        over: false,
        steps: bounds::used(),
        heap: bounds::peak(),
    }
}

/// Runs one case on a fresh thread; None when it does not come back within `limit`.
/// A case that goes beyond the bounds of `bounds` comes back as a failed one.
fn run_case(f: fn(&mut Case) -> R, g: Gen, entropy: u64, verbose: bool, limit: Duration) -> Option<Outcome> {
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            bounds::enter(tx.clone());
            let o = run_here(f, g, entropy, verbose);
            bounds::leave();
            let _ = tx.send(o);
        })
        .expect("spawn");
    match rx.recv_timeout(limit) {
        Ok(o) => {
            if o.over {
                // the thread is parked for good
                std::mem::forget(h);
            } else {
                let _ = h.join();
            }
            Some(o)
        }
        Err(_) => {
            // never dropped: dropping detaches, and glibc's pthread_detach may touch the stack of a thread
            // that ends at that moment
            std::mem::forget(h);
            None
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}
fn hash_rec(v: &[u64]) -> u64 {
    let mut h = Sm::new(v.len() as u64);
    for &x in v {
        h = Sm::new(h.next() ^ x);
    }
    h.next()
}

fn case_seed(seed: u64, id: &str, sc: &str, idx: u64) -> u64 {
    let mut s = Sm::new(seed ^ fnv(id).rotate_left(17) ^ fnv(sc));
    let a = s.next();
    Sm::new(a ^ idx.wrapping_mul(0x9e37_79b9_7f4a_7c15)).next()
}

struct Failure {
    scen: usize,
    idx: u64,
    entropy: u64,
    rec: Vec<u64>,
    msg: String,
}

pub struct RunResult {
    pub code: i32,
}

pub struct Config {
    pub verif_dir: String,
    pub build_tag: String,
    /// Scenarios for guided search, with the number of cases in the quick tier.
    pub guided: fn(&str) -> Vec<(&'static str, u64)>,
}

fn shrink(f: fn(&mut Case) -> R, entropy: u64, rec: Vec<u64>, msg: String) -> (Vec<u64>, String, u64) {
    shrink_by(|cand| run_case(f, Gen::replay(cand), entropy, false, Duration::from_secs(5)).map(|o| (o.rec, o.res)), rec, msg)
}

/// Shrinks with any way to run a case; None means that it did not come back.
fn shrink_by(mut run: impl FnMut(Vec<u64>) -> Option<(Vec<u64>, R)>, rec: Vec<u64>, msg: String) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let mut best = rec;
    let mut best_msg = msg;
    let mut runs = 0u64;
    let budget = Duration::from_secs(25);
    let max_runs = 6000;
    let mut hangs = 0;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if runs >= max_runs || start.elapsed() > budget || hangs >= 2 || cand == best {
                false
            } else {
                runs += 1;
                match run(cand) {
                    Some((r, Err(m))) => {
                        let better = (r.len(), &r) < (best.len(), &best);
                        if better {
                            best = r;
                            best_msg = m;
                        }
                        better
                    }
                    None => {
                        hangs += 1;
                        false
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                if lo < cand.len() {
                    cand.drain(lo..i.min(best.len()));
                    attempt!(cand);
                }
                i = lo.min(best.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt!(cand);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut cand = best.clone();
                cand[i] = v - 1;
                if attempt!(cand) || v > 3 {
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    while lo < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = mid;
                        if attempt!(cand) {
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid + 1;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= max_runs || start.elapsed() > budget || hangs >= 2 {
            break;
        }
    }
    (best, best_msg, runs)
}

fn known_file(dir: &str) -> Vec<(String, String, String)> {
    // known: property=<id> sig=<signature> <what fails>
    let txt = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    let mut out = Vec::new();
    for l in txt.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
            out.push((id, sig, it.next().unwrap_or("").to_string()));
        }
    }
    out
}

fn write_replay(cfg: &Config, p: &Prop, scen: &str, entropy: u64, rec: &[u64], msg: &str, trace: &[String], runs: u64) -> String {
    let dir = format!("{}/replays", cfg.verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{:016x}.json", dir, p.id, scen, hash_rec(rec) ^ entropy);
    let v = serde_json::json!({
        "property": p.id, "scenario": scen, "entropy": entropy, "choices": rec, "message": msg,
        "trace": trace, "shrink_runs": runs, "build": cfg.build_tag,
        "ends_process": msg.starts_with("the process ends"), "counted_steps": msg.starts_with("does not end"), "how": format!("bin/check {} --replay {}", p.id, path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn replay(cfg: &Config, p: &Prop, file: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read replay file {}", file);
            return 2;
        }
    };
    let scen = v["scenario"].as_str().unwrap_or("");
    let s = match p.scenarios.iter().find(|s| s.name == scen) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {} in {}", scen, p.id);
            return 2;
        }
    };
    let rec: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let entropy = v["entropy"].as_u64().unwrap_or(0);
    let _ = cfg;
    bounds::set_step_limit(step_limit(s));
    match run_case(s.f, Gen::replay(rec), entropy, true, Duration::from_secs(600)) {
        None => {
            eprintln!("replay did not finish within 600 s");
            2
        }
        Some(o) => {
            for t in &o.trace {
                println!("  {}", t);
            }
            match o.res {
                Ok(()) => {
                    println!("replay of {} passes", file);
                    0
                }
                Err(m) => {
                    println!("failure: {}", m);
                    println!("VIOLATION property={} replay={}", p.id, file);
                    1
                }
            }
        }
    }
}

/// Entry point of a check binary: `prog <ID> [--replay FILE] [--scenario NAME] [--cases N]`.
pub fn main_with(find: fn(&str) -> Option<Prop>, ids: &[&str], cfg: Config) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if args.len() < 2 {
        eprintln!("usage: {} <property id> [--replay FILE] [--scenario NAME] [--cases N]; ids: {:?}", args[0], ids);
        return 2;
    }
    let p = match find(&args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            return 2;
        }
    };
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if let Some(f) = opt("--replay") {
        return replay(&cfg, &p, &f);
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    if let Some(k) = opt("--guided-worker").and_then(|s| s.parse().ok()) {
        let list: Vec<(String, u64)> = opt("--guided-list")
            .unwrap_or_default()
            .split(',')
            .filter_map(|x| x.split_once('='))
            .map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0)))
            .collect();
        return guided::worker(&p, seed, k, &list);
    }
    if args.iter().any(|a| a == "--one") {
        return one(&p);
    }
    if let Some(f) = opt("--after-crash") {
        return after_crash(&cfg, &p, seed, &f);
    }
    if args.iter().any(|a| a == "--confirm") {
        return confirm(&p);
    }
    let only = opt("--scenario");
    let cases_override: Option<u64> = opt("--cases").and_then(|s| s.parse().ok());
    run_prop(&cfg, &p, seed, thorough, only, cases_override).code
}

/// A case that did not come back in time, to be judged by its steps.
#[derive(Clone)]
struct Unfinished {
    scen: usize,
    entropy: u64,
    prefix: Vec<u64>,
    tail: Option<u64>,
}

fn step_limit(s: &Scenario) -> u64 {
    if s.cases >= 5000 {
        bounds::SMALL_STEP_LIMIT
    } else {
        bounds::STEP_LIMIT
    }
}

/// Runs the case described on standard input in a build that counts steps; prints what became of it.
fn confirm(p: &Prop) -> i32 {
    let mut text = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut text);
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
    let s = match p.scenarios.iter().find(|s| Some(s.name) == v["scenario"].as_str()) {
        Some(s) => s,
        None => return 2,
    };
    let prefix: Vec<u64> = v["prefix"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let entropy = v["entropy"].as_u64().unwrap_or(0);
    let long = Duration::from_secs(350);
    bounds::set_step_limit(step_limit(s));
    let o = match run_case(s.f, Gen::mixed(prefix, v["tail"].as_u64()), entropy, false, long) {
        Some(o) => o,
        None => return 2,
    };
    let (mut rec, mut msg, mut runs) = (o.rec, o.res.clone().err(), 0);
    if o.over {
        // shrink with a smaller limit: many times what ordinary cases of the scenario need
        bounds::set_step_limit(bounds::STEP_LIMIT / 20);
        let mut most = 0;
        for i in 0..12 {
            if let Some(o) = run_case(s.f, Gen::random(Sm::new(i).next()), i, false, Duration::from_secs(20)) {
                most = most.max(o.steps);
            }
        }
        bounds::set_step_limit((most * 50).clamp(20_000_000, step_limit(s)));
        let (r, _, n) = shrink(s.f, entropy, rec.clone(), msg.clone().unwrap_or_default());
        runs = n;
        bounds::set_step_limit(step_limit(s));
        if r != rec {
            if let Some(o) = run_case(s.f, Gen::replay(r), entropy, false, long) {
                if o.res.is_err() {
                    rec = o.rec;
                    msg = o.res.err();
                }
            }
        }
    }
    println!("{}", serde_json::json!({"over": o.over, "message": msg, "choices": rec, "steps": o.steps, "runs": runs}));
    0
}

/// Runs the case described on standard input, writing its choices to a file; exit 0 unless the process ends.
fn one(p: &Prop) -> i32 {
    let mut text = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut text);
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
    let s = match p.scenarios.iter().find(|s| Some(s.name) == v["scenario"].as_str()) {
        Some(s) => s,
        None => return 2,
    };
    let prefix: Vec<u64> = v["prefix"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let mut g = Gen::mixed(prefix, v["tail"].as_u64());
    g.log = v["log"].as_str().and_then(|f| std::fs::File::create(f).ok());
    match run_case(s.f, g, v["entropy"].as_u64().unwrap_or(0), false, Duration::from_secs(100)) {
        Some(_) => 0,
        None => 3,
    }
}

/// After a run that ended the process (a stack overflow, an abort): finds the case among those that were running.
fn after_crash(cfg: &Config, p: &Prop, seed: u64, file: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return 2,
    };
    let log = format!("{}.choices", file);
    let run = |u: &Unfinished| -> Option<(Vec<u64>, R)> {
        let input = serde_json::json!({"scenario": p.scenarios[u.scen].name, "entropy": u.entropy, "prefix": u.prefix, "tail": u.tail, "log": log});
        let mut c = std::process::Command::new(&exe)
            .args([p.id, "--one"])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .ok()?;
        let _ = std::io::Write::write_all(&mut c.stdin.take().unwrap(), input.to_string().as_bytes());
        let o = c.wait_with_output().ok()?;
        let rec = std::fs::read(&log).unwrap_or_default().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        match o.status.signal() {
            // aborts and faults; not a kill from outside
            Some(n) if n != 9 && n != 15 && n != 2 => {
                let e = String::from_utf8_lossy(&o.stderr);
                let e: Vec<&str> = e.lines().filter(|l| l.contains("overflow") || l.contains("abort") || l.contains("panic") || l.contains("memory")).take(2).collect();
                Some((rec, Err(format!("the process ends with signal {}: {}", n, e.join("; ")))))
            }
            _ if o.status.code() == Some(0) => Some((rec, Ok(()))),
            _ => None,
        }
    };
    let slots = std::fs::read(file).unwrap_or_default();
    let mut code = 2;
    for b in slots.chunks_exact(16) {
        let w = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let (si, idx) = (w(0), w(8));
        if si == 0 || si as usize > p.scenarios.len() {
            continue;
        }
        let si = si as usize - 1;
        let cs = case_seed(seed, p.id, p.scenarios[si].name, idx);
        let entropy = Sm::new(cs ^ 0xe17).next();
        let u = Unfinished { scen: si, entropy, prefix: vec![], tail: Some(cs) };
        if let (Some((_, Err(_))), Some((rec, Err(msg)))) = (run(&u), run(&u)) {
            let (rec, msg, runs) = shrink_by(|c| run(&Unfinished { scen: si, entropy, prefix: c, tail: None }), rec, msg);
            let path = write_replay(cfg, p, p.scenarios[si].name, entropy, &rec, &msg, &[], runs);
            println!("scenario {} case {}: {}", p.scenarios[si].name, idx, msg);
            println!("shrunk to {} choices in {} runs: {}", rec.len(), runs, msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            code = 1;
            break;
        }
    }
    let _ = std::fs::remove_file(&log);
    code
}

/// Has unfinished cases judged by the step-counting build. Returns failures, and how many cases ended properly.
fn judge_unfinished(cfg: &Config, p: &Prop, list: &[Unfinished]) -> (Vec<(Failure, u64)>, usize) {
    let mut fails = Vec::new();
    let mut fine = 0;
    // development only
    if std::env::var("PCHECK_NO_CONFIRM").is_ok() {
        return (fails, fine);
    }
    // threads that still spin should not take the processors from what follows
    let me = std::process::id().to_string();
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for t in d.flatten().filter_map(|e| e.file_name().into_string().ok()).filter(|t| *t != me) {
            let _ = std::process::Command::new("renice").args(["-n", "19", "-p", &t]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        }
    }
    let bin = match std::process::Command::new(format!("{}/bin/steps-build", cfg.verif_dir)).arg(p.id).output() {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).trim().to_string(),
        _ => return (fails, fine),
    };
    for u in list {
        let input = serde_json::json!({"scenario": p.scenarios[u.scen].name, "entropy": u.entropy, "prefix": u.prefix, "tail": u.tail});
        let child = std::process::Command::new(&bin).args([p.id, "--confirm"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn();
        let out = child.and_then(|mut c| {
            let _ = std::io::Write::write_all(&mut c.stdin.take().unwrap(), input.to_string().as_bytes());
            c.wait_with_output()
        });
        let v: serde_json::Value = match out {
            Ok(o) if o.status.success() => serde_json::from_slice(&o.stdout).unwrap_or_default(),
            _ => continue,
        };
        if !v.is_object() {
            continue;
        }
        match v["message"].as_str() {
            None => fine += 1,
            Some(m) => {
                let rec = v["choices"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
                fails.push((Failure { scen: u.scen, idx: u64::MAX, entropy: u.entropy, rec, msg: m.to_string() }, v["runs"].as_u64().unwrap_or(0)));
                break;
            }
        }
    }
    (fails, fine)
}

pub fn run_prop(cfg: &Config, p: &Prop, seed: u64, thorough: bool, only: Option<String>, cases_override: Option<u64>) -> RunResult {
    let start = Instant::now();
    // work list
    let mut work: Vec<(usize, u64)> = Vec::new();
    for (si, s) in p.scenarios.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = cases_override.unwrap_or(if thorough { s.cases * s.thorough } else { s.cases });
        // development only: nothing but the guided part
        let n = if std::env::var("PCHECK_ONLY_GUIDED").is_ok() { 0 } else { n };
        for i in 0..n {
            work.push((si, i));
        }
    }
    let work = Arc::new(work);
    let scen: Arc<Vec<(&'static str, fn(&mut Case) -> R)>> = Arc::new(p.scenarios.iter().map(|s| (s.name, s.f)).collect());
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let failures: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(Vec::new()));
    #[derive(Default)]
    struct Stats {
        evals: BTreeMap<usize, u64>,
        nontriv: BTreeMap<usize, u64>,
        labels: BTreeMap<(usize, &'static str), u64>,
        excluded: u64,
        distinct: HashSet<u64>,
        hangs: Vec<(usize, u64)>,
        time: BTreeMap<usize, f64>,
        max_choices: usize,
        steps: BTreeMap<usize, u64>,
        heap: BTreeMap<usize, u64>,
        sample_idx: BTreeMap<usize, u64>,
    }
    let stats = Arc::new(Mutex::new(Stats::default()));
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let id = p.id;
    let limit = Duration::from_secs(if thorough { 300 } else { 45 });
    let running = std::env::var("PCHECK_RUNNING").ok().and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok()).map(Arc::new);
    let hung = Arc::new(AtomicU64::new(0));
    let mut hs = Vec::new();
    for worker in 0..workers as u64 {
        let (running, hung) = (running.clone(), hung.clone());
        let (work, scen, next, stop, failures, stats) =
            (work.clone(), scen.clone(), next.clone(), stop.clone(), failures.clone(), stats.clone());
        hs.push(std::thread::spawn(move || {
            let mut local = Stats::default();
            loop {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                let w = next.fetch_add(1, Ordering::SeqCst) as usize;
                if w >= work.len() {
                    break;
                }
                let (si, idx) = work[w];
                let cs = case_seed(seed, id, scen[si].0, idx);
                let entropy = Sm::new(cs ^ 0xe17).next();
                let t0 = Instant::now();
                if let Some(f) = &running {
                    let mut b = [0u8; 16];
                    b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                    b[8..].copy_from_slice(&idx.to_le_bytes());
                    let _ = std::os::unix::fs::FileExt::write_all_at(&**f, &b, worker * 16);
                }
                match run_case(scen[si].1, Gen::random(cs), entropy, false, limit) {
                    None => {
                        local.hangs.push((si, idx));
                        // a few are enough; they are judged by their steps
                        if hung.fetch_add(1, Ordering::SeqCst) >= 2 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    Some(o) => {
                        *local.time.entry(si).or_insert(0.0) += t0.elapsed().as_secs_f64();
                        *local.evals.entry(si).or_insert(0) += 1;
                        local.excluded += o.excluded;
                        local.max_choices = local.max_choices.max(o.rec.len());
                        let e = local.steps.entry(si).or_insert(0);
                        *e = (*e).max(o.steps);
                        let e = local.heap.entry(si).or_insert(0);
                        *e = (*e).max(o.heap as u64);
                        for (l, n) in &o.labels {
                            *local.labels.entry((si, l)).or_insert(0) += n;
                        }
                        if o.nontrivial {
                            *local.nontriv.entry(si).or_insert(0) += 1;
                            local.distinct.insert(hash_rec(&o.rec) ^ fnv(scen[si].0));
                            let e = local.sample_idx.entry(si).or_insert(idx);
                            *e = (*e).min(idx);
                        }
                        if let Err(m) = o.res {
                            stop.store(true, Ordering::SeqCst);
                            failures.lock().unwrap().push(Failure { scen: si, idx, entropy, rec: o.rec, msg: m });
                        }
                    }
                }
            }
            let mut s = stats.lock().unwrap();
            for (k, v) in local.evals {
                *s.evals.entry(k).or_insert(0) += v;
            }
            for (k, v) in local.nontriv {
                *s.nontriv.entry(k).or_insert(0) += v;
            }
            for (k, v) in local.labels {
                *s.labels.entry(k).or_insert(0) += v;
            }
            for (k, v) in local.time {
                *s.time.entry(k).or_insert(0.0) += v;
            }
            for (k, v) in local.sample_idx {
                let e = s.sample_idx.entry(k).or_insert(v);
                *e = (*e).min(v);
            }
            for (k, v) in local.steps {
                let e = s.steps.entry(k).or_insert(v);
                *e = (*e).max(v);
            }
            for (k, v) in local.heap {
                let e = s.heap.entry(k).or_insert(v);
                *e = (*e).max(v);
            }
            s.excluded += local.excluded;
            s.max_choices = s.max_choices.max(local.max_choices);
            s.distinct.extend(local.distinct);
            s.hangs.extend(local.hangs);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut st = stats.lock().unwrap();
    let mut fails = failures.lock().unwrap();
    let mut guided_ev = serde_json::json!({});
    let mut guided_execs = 0;
    let mut trouble = None;
    let mut guided_unfinished: Vec<Unfinished> = Vec::new();
    let bin = std::env::var("PCHECK_GUIDED_BIN").unwrap_or_default();
    if fails.is_empty() && st.hangs.is_empty() && !bin.is_empty() {
        let mut list = (cfg.guided)(p.id);
        list.retain(|(n, _)| only.as_deref().map_or(true, |o| o == *n));
        for x in &mut list {
            if thorough {
                x.1 *= 40;
            }
            if let Some(n) = cases_override {
                x.1 = n;
            }
        }
        if !list.is_empty() {
            let g = guided::run(cfg, p, &bin, workers as u64, &list);
            for f in g.failures {
                // reported only if it fails here as well
                match run_case(p.scenarios[f.scen].f, Gen::replay(f.rec.clone()), f.entropy, false, limit) {
                    Some(o) if o.res.is_err() => fails.push(f),
                    _ => println!("note: a failure of guided search did not repeat: {}", f.msg),
                }
            }
            fails.sort_by_key(|f| (f.scen, f.rec.len()));
            st.distinct.extend(g.distinct);
            guided_ev = g.evidence;
            guided_execs = g.execs;
            trouble = g.trouble;
            guided_unfinished = g.unfinished;
        }
    }
    fails.sort_by_key(|f| (f.scen, f.idx));
    // cases that did not come back: judged by counting steps
    let mut endless = None;
    let mut undecided = st.hangs.len();
    if fails.is_empty() && (!st.hangs.is_empty() || !guided_unfinished.is_empty()) {
        let mut list: Vec<Unfinished> = Vec::new();
        for &(si, idx) in st.hangs.iter().take(3) {
            let cs = case_seed(seed, id, scen[si].0, idx);
            list.push(Unfinished { scen: si, entropy: Sm::new(cs ^ 0xe17).next(), prefix: vec![], tail: Some(cs) });
        }
        list.extend(guided_unfinished.iter().take(1).cloned());
        let (f, fine) = judge_unfinished(cfg, p, &list);
        endless = f.into_iter().next();
        if !stop.load(Ordering::SeqCst) && st.hangs.len() <= fine {
            undecided = 0;
        }
    }
    let mut code = 0;
    let mut violations = 0;

    // known findings
    let listed = known_file(&cfg.verif_dir);
    let mut known_lines = Vec::new();
    for k in &p.known {
        let f = k.f;
        let res = catch_unwind(AssertUnwindSafe(f))
            .unwrap_or_else(|_| Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))));
        if let Err(m) = res {
            if listed.iter().any(|(i, s, _)| i == p.id && s == k.sig) {
                println!("KNOWN-FINDING: property={} {} [{}]", p.id, k.what, k.sig);
                known_lines.push(format!("{}: {} ({})", k.sig, k.what, m));
            } else {
                let path = write_replay(cfg, p, "known-probe", 0, &[], &format!("{}: {}", k.what, m), &[], 0);
                println!("failure: {}: {}", k.what, m);
                println!("VIOLATION property={} replay={}", p.id, path);
                violations += 1;
                code = 1;
            }
        }
    }

    if let Some(f) = fails.first() {
        let sc = &p.scenarios[f.scen];
        let (rec, msg, runs) = shrink(sc.f, f.entropy, f.rec.clone(), f.msg.clone());
        let o = run_case(sc.f, Gen::replay(rec.clone()), f.entropy, true, Duration::from_secs(60));
        let (trace, msg) = match o {
            Some(o) => (o.trace, o.res.err().unwrap_or(msg)),
            None => (vec![], msg),
        };
        let path = write_replay(cfg, p, sc.name, f.entropy, &rec, &msg, &trace, runs);
        println!("scenario {} case {} failed: {}", sc.name, if f.idx == u64::MAX { "of guided search".to_string() } else { f.idx.to_string() }, f.msg);
        println!("shrunk to {} choices in {} runs: {}", rec.len(), runs, msg);
        for t in trace.iter().take(60) {
            println!("    {}", t);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
        code = 1;
    } else if let Some((f, runs)) = &endless {
        let sc = &p.scenarios[f.scen];
        let path = write_replay(cfg, p, sc.name, f.entropy, &f.rec, &f.msg, &[], *runs);
        println!("scenario {}: {}", sc.name, f.msg);
        println!("shrunk to {} choices in {} runs: {}", f.rec.len(), runs, f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
        code = 1;
    } else if undecided > 0 && code == 0 {
        for (si, idx) in st.hangs.iter().take(5) {
            println!("inconclusive: scenario {} case {} did not finish within {:?}", p.scenarios[*si].name, idx, limit);
        }
        code = 2;
    }

    if let (Some(t), 0) = (&trouble, code) {
        println!("inconclusive: guided search: {}", t);
        code = 2;
    }

    // samples: the first non-trivial case of each scenario, written out
    let mut samples = Vec::new();
    if code == 0 || code == 1 {
        for (si, idx) in &st.sample_idx {
            let s = &p.scenarios[*si];
            let cs = case_seed(seed, id, s.name, *idx);
            let entropy = Sm::new(cs ^ 0xe17).next();
            if let Some(o) = run_case(s.f, Gen::random(cs), entropy, true, limit) {
                let mut t: Vec<String> = o.trace.into_iter().take(14).collect();
                for l in &mut t {
                    if l.len() > 300 {
                        let mut cut = 300;
                        while !l.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        l.truncate(cut);
                        l.push_str("...");
                    }
                }
                samples.push(serde_json::json!({"scenario": s.name, "case": idx, "choices": o.rec.len(), "first_choices": o.rec.iter().take(24).collect::<Vec<_>>(), "trace": t}));
            }
        }
    }
    let mut per = serde_json::Map::new();
    for (si, s) in p.scenarios.iter().enumerate() {
        let mut labels = serde_json::Map::new();
        for ((k, l), n) in &st.labels {
            if *k == si {
                labels.insert(l.to_string(), (*n).into());
            }
        }
        per.insert(
            s.name.to_string(),
            serde_json::json!({"evaluations": st.evals.get(&si).copied().unwrap_or(0), "nontrivial": st.nontriv.get(&si).copied().unwrap_or(0),
                "classes": labels, "most_heap_bytes": st.heap.get(&si), "thread_seconds": (st.time.get(&si).copied().unwrap_or(0.0)*100.0).round()/100.0}),
        );
    }
    let evals: u64 = st.evals.values().sum::<u64>() + guided_execs;
    let ev = serde_json::json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": st.distinct.len(), "rule": p.rule, "samples": samples,
            "scenarios": per, "coverage_guided": guided_ev, "excluded_known": st.excluded, "longest_case_choices": st.max_choices,
            "unfinished_cases": st.hangs.len(), "known_findings": known_lines, "build": cfg.build_tag,
        },
        "assumptions": p.assumptions, "wall_s": (start.elapsed().as_secs_f64()*100.0).round()/100.0, "violations": violations,
    });
    let dir = format!("{}/evidence", cfg.verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = std::env::var("PCHECK_EVIDENCE").unwrap_or_else(|_| format!("{}/{}.json", dir, p.id));
    if only.is_none() && cases_override.is_none() && std::env::var("PCHECK_ONLY_GUIDED").is_err() {
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {}", path, e);
            if code == 0 {
                code = 2;
            }
        }
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, exit {}",
        p.id, evals, st.distinct.len(), start.elapsed().as_secs_f64(), code
    );
    for (si, s) in p.scenarios.iter().enumerate() {
        if let Some(n) = st.evals.get(&si) {
            if std::env::var("PCHECK_BOUNDS").is_ok() {
                println!("  {:<28} steps {} heap {}", s.name, st.steps.get(&si).unwrap_or(&0), st.heap.get(&si).unwrap_or(&0));
            }
            println!(
                "  {:<28} {:>8} cases {:>8} nontrivial {:>8.2} thread-s  {}",
                s.name, n, st.nontriv.get(&si).copied().unwrap_or(0), st.time.get(&si).copied().unwrap_or(0.0),
                st.labels.iter().filter(|((k, _), _)| *k == si).map(|((_, l), n)| format!("{}={}", l, n)).collect::<Vec<_>>().join(" ")
            );
        }
    }
    RunResult { code }
}
