//! Coverage-guided search over choice sequences.
//!
//! A worker process runs cases one after another in a build with SanitizerCoverage counters. It keeps the
//! choice sequences that reached a new (edge, count class) or a new set of case labels, and derives further
//! cases from them by editing, splicing and regenerating parts. A failure goes back to the parent process,
//! which shrinks and reports it like one of the random search.
use crate::{fnv, hash_rec, run_case, Config, Failure, Gen, Outcome, Prop, Sm, Unfinished};
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static RANGES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called by the start-up code of every instrumented module.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let r = (start as usize, stop as usize);
    let mut v = RANGES.lock().unwrap();
    if r.0 < r.1 && !v.contains(&r) {
        v.push(r);
    }
}

fn class(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// What the search has reached so far: for each counter, the classes of counts seen.
struct Seen {
    virgin: Vec<u8>,
    labels: HashSet<u64>,
    features: u64,
}

impl Seen {
    fn clear_counters(ranges: &[(usize, usize)]) {
        for &(a, b) in ranges {
            // the counters belong to no Rust object
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) };
        }
    }
    /// How many features of the last run are new.
    fn update(&mut self, ranges: &[(usize, usize)], labels: u64) -> u64 {
        let mut new = 0;
        let mut at = 0;
        for &(a, b) in ranges {
            let s = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
            for (i, &n) in s.iter().enumerate() {
                if n != 0 {
                    let c = class(n);
                    let v = &mut self.virgin[at + i];
                    if *v & c == 0 {
                        *v |= c;
                        new += 1;
                    }
                }
            }
            at += b - a;
        }
        if self.labels.insert(labels) {
            new += 1;
        }
        self.features += new;
        new
    }
}

struct Entry {
    entropy: u64,
    rec: Vec<u64>,
    max: Vec<u64>,
}

fn mutate(r: &mut Sm, corpus: &[Entry], e: &Entry) -> (Vec<u64>, bool) {
    let mut v = e.rec.clone();
    let mut max = e.max.clone();
    let mut open = false;
    let below = |r: &mut Sm, n: usize| (r.next() % n.max(1) as u64) as usize;
    // stacked edits
    for _ in 0..1 + below(r, 4) {
        if v.is_empty() {
            break;
        }
        let n = v.len();
        let i = below(r, n);
        let len = 1 + match below(r, 3) {
            0 => below(r, 4),
            1 => below(r, 32),
            _ => below(r, n),
        };
        let j = (i + len).min(n);
        match below(r, 10) {
            0 | 1 | 2 => {
                // one value
                let m = max[i];
                v[i] = match below(r, 6) {
                    0 => 0,
                    1 => m,
                    2 => v[i].wrapping_add(1).min(m),
                    3 => v[i].saturating_sub(1),
                    _ => ((r.next() as u128 * (m as u128 + 1)) >> 64) as u64,
                };
            }
            3 => {
                v.drain(i..j);
                max.drain(i..j);
            }
            4 => {
                // repeat a piece
                let (a, b) = (v[i..j].to_vec(), max[i..j].to_vec());
                let k = below(r, n + 1);
                v.splice(k..k, a);
                max.splice(k..k, b);
            }
            5 => {
                // a piece of another case
                let o = &corpus[below(r, corpus.len())];
                if !o.rec.is_empty() {
                    let a = below(r, o.rec.len());
                    let b = (a + len).min(o.rec.len());
                    let k = below(r, n + 1);
                    if r.next() & 1 == 0 {
                        v.splice(k..k, o.rec[a..b].iter().copied());
                        max.splice(k..k, o.max[a..b].iter().copied());
                    } else {
                        let h = (k + (b - a)).min(n);
                        v.splice(k..h, o.rec[a..b].iter().copied());
                        max.splice(k..h, o.max[a..b].iter().copied());
                    }
                }
            }
            6 => {
                // the same beginning, another continuation
                v.truncate(i);
                max.truncate(i);
                open = true;
            }
            7 => {
                // one value again, elsewhere
                let k = below(r, n);
                v[k] = v[i];
            }
            8 => {
                // new values for a piece
                for k in i..j {
                    v[k] = ((r.next() as u128 * (max[k] as u128 + 1)) >> 64) as u64;
                }
            }
            _ => {
                v[i..j].rotate_left(below(r, j - i));
            }
        }
    }
    (v, open)
}

/// A worker: `n` cases for each listed scenario; prints one JSON object.
pub fn worker(p: &Prop, seed: u64, k: u64, list: &[(String, u64)]) -> i32 {
    let ranges = RANGES.lock().unwrap().clone();
    let counters: usize = ranges.iter().map(|r| r.1 - r.0).sum();
    let mut out = Vec::new();
    for (name, n) in list {
        let s = match p.scenarios.iter().find(|s| s.name == name) {
            Some(s) => s,
            None => {
                eprintln!("no scenario {} in {}", name, p.id);
                return 2;
            }
        };
        let mut r = Sm::new(Sm::new(seed ^ fnv(p.id).rotate_left(29) ^ fnv(name)).next() ^ (k + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let mut seen = Seen { virgin: vec![0; counters], labels: HashSet::new(), features: 0 };
        let mut corpus: Vec<Entry> = Vec::new();
        let (mut execs, mut nontrivial, mut slow, mut longest) = (0u64, HashSet::new(), 0u64, 0usize);
        let mut fail = None;
        let mut unfinished = None;
        let start = Instant::now();
        while execs < *n {
            let fresh = corpus.is_empty() || execs < n / 8 || r.next() % 8 == 0;
            let (prefix, tail, entropy) = if fresh {
                (Vec::new(), Some(r.next()), r.next())
            } else {
                let m = corpus.len();
                // newer entries more often
                let i = if r.next() & 1 == 0 { m - 1 - (r.next() % (m as u64 / 4 + 1)) as usize } else { (r.next() % m as u64) as usize };
                let e = &corpus[i];
                let (v, open) = mutate(&mut r, &corpus, e);
                let entropy = if r.next() % 8 == 0 { r.next() } else { e.entropy };
                (v, if open { Some(r.next()) } else { None }, entropy)
            };
            let g = Gen::mixed(prefix.clone(), tail);
            Seen::clear_counters(&ranges);
            let t = Instant::now();
            let o: Outcome = match run_case(s.f, g, entropy, false, Duration::from_secs(30)) {
                Some(o) => o,
                None => {
                    // derived cases may be much larger than drawn ones: the first is judged by its steps
                    if unfinished.is_none() {
                        unfinished = Some(serde_json::json!({"prefix": prefix, "tail": tail, "entropy": entropy}));
                    }
                    slow += 1;
                    if slow > 2 {
                        break;
                    }
                    execs += 1;
                    continue;
                }
            };
            let dt = t.elapsed();
            execs += 1;
            longest = longest.max(o.rec.len());
            if o.nontrivial {
                nontrivial.insert(hash_rec(&o.rec));
            }
            if let Err(m) = o.res {
                fail = Some((entropy, o.rec, m));
                break;
            }
            let mut l = 0u64;
            for name in o.labels.keys() {
                l ^= fnv(name);
            }
            let new = seen.update(&ranges, l);
            let mean = start.elapsed().as_secs_f64() / execs as f64;
            if new > 0 && o.rec.len() <= 20_000 && dt.as_secs_f64() < 0.002 + mean * 12.0 {
                corpus.push(Entry { entropy, rec: o.rec, max: o.max });
            }
        }
        out.push(serde_json::json!({
            "scenario": name, "execs": execs, "nontrivial": nontrivial.iter().collect::<Vec<_>>(), "kept": corpus.len(), "features": seen.features,
            "counters": counters, "given_up": slow, "longest": longest, "unfinished": unfinished,
            "failure": fail.map(|(e, rec, m)| serde_json::json!({"entropy": e, "choices": rec, "message": m})),
        }));
    }
    println!("{}", serde_json::Value::Array(out));
    0
}

pub(crate) struct Guided {
    pub failures: Vec<Failure>,
    pub evidence: serde_json::Value,
    pub execs: u64,
    pub distinct: Vec<u64>,
    pub trouble: Option<String>,
    pub unfinished: Vec<Unfinished>,
}

/// Runs the workers of one property and collects their results.
pub(crate) fn run(cfg: &Config, p: &Prop, bin: &str, workers: u64, list: &[(&'static str, u64)]) -> Guided {
    let mut g = Guided { failures: vec![], evidence: serde_json::json!({}), execs: 0, distinct: vec![], trouble: None, unfinished: vec![] };
    let _ = cfg;
    let spec = list.iter().map(|(n, c)| format!("{}={}", n, c.div_ceil(workers))).collect::<Vec<_>>().join(",");
    let mut hs = Vec::new();
    for k in 0..workers {
        match Command::new(bin).args([p.id, "--guided-worker", &k.to_string(), "--guided-list", &spec]).stdout(Stdio::piped()).spawn() {
            Ok(c) => hs.push(c),
            Err(e) => g.trouble = Some(format!("cannot start {}: {}", bin, e)),
        }
    }
    let mut per: std::collections::BTreeMap<String, [u64; 6]> = Default::default();
    for c in hs {
        let o = match c.wait_with_output() {
            Ok(o) => o,
            Err(e) => {
                g.trouble = Some(e.to_string());
                continue;
            }
        };
        let v: serde_json::Value = match serde_json::from_slice(&o.stdout) {
            Ok(v) if o.status.success() => v,
            _ => {
                g.trouble = Some(format!("a worker ended with {}", o.status));
                continue;
            }
        };
        for s in v.as_array().into_iter().flatten() {
            let name = s["scenario"].as_str().unwrap_or("").to_string();
            let n = |k: &str| s[k].as_u64().unwrap_or(0);
            let e = per.entry(name.clone()).or_default();
            e[0] += n("execs");
            g.execs += n("execs");
            let nt: Vec<u64> = s["nontrivial"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).map(|x| x ^ fnv(&name)).collect();
            e[1] += nt.len() as u64;
            g.distinct.extend(nt);
            e[2] += n("kept");
            e[3] = e[3].max(n("features"));
            e[4] += n("given_up");
            e[5] = e[5].max(n("longest"));
            if let (Some(f), Some(scen)) = (s["unfinished"].as_object(), p.scenarios.iter().position(|x| x.name == name)) {
                g.unfinished.push(Unfinished {
                    scen,
                    entropy: f["entropy"].as_u64().unwrap_or(0),
                    prefix: f["prefix"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect(),
                    tail: f["tail"].as_u64(),
                });
            }
            if let (Some(f), Some(scen)) = (s["failure"].as_object(), p.scenarios.iter().position(|x| x.name == name)) {
                g.failures.push(Failure {
                    scen,
                    idx: u64::MAX,
                    entropy: f["entropy"].as_u64().unwrap_or(0),
                    rec: f["choices"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect(),
                    msg: f["message"].as_str().unwrap_or("").to_string(),
                });
            }
        }
    }
    let mut m = serde_json::Map::new();
    for (k, e) in per {
        println!("  guided {:<21} {:>8} cases {:>8} nontrivial  kept {} features {} given up {}", k, e[0], e[1], e[2], e[3], e[4]);
        m.insert(k, serde_json::json!({"evaluations": e[0], "nontrivial": e[1], "kept_inputs": e[2], "coverage_features_of_best_worker": e[3], "given_up": e[4], "longest_case_choices": e[5]}));
    }
    g.evidence = serde_json::Value::Object(m);
    g
}
