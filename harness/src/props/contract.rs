//! C29: the documented domain of the constructors, with and without overflow checks.
use crate::keys::*;
use engine::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::*;
use probabilistic_collections::SipHasherBuilder;
use std::vec::IntoIter;

fn two(c: &mut Case) -> [SipHasherBuilder; 2] {
    [sip(c.g.u64(), 1), sip(c.g.u64(), 2)]
}
/// Judges a constructor that must (or must not) panic.
fn judge<T>(c: &mut Case, must: bool, what: &str, r: Result<T, String>) -> Result<Option<T>, String> {
    tr!(c, "{}: expected to {}", what, if must { "panic" } else { "work" });
    c.label(if must { "rejected" } else { "accepted" });
    match r {
        Ok(_) if must => fail!("{} is accepted although documented to panic", what),
        Err(e) if !must => fail!("{} panics although documented to work: {}", what, e),
        Ok(x) => Ok(Some(x)),
        Err(_) => Ok(None),
    }
}

fn c29_quotient(c: &mut Case) -> R {
    // small quotients only: the table has 2^q slots, and a wrongly accepted argument would allocate it
    let q = match c.g.weighted(&[6, 1]) {
        0 => c.g.us(1, 12) as u8,
        _ => 0,
    };
    let r = match c.g.weighted(&[3, 3, 3, 2, 1]) {
        0 => c.g.us(1, 61) as u8,
        // next to the limit
        1 => (62 + c.g.us(0, 4)) as u8 - q,
        2 => c.g.us(60, 255) as u8,
        // sums that overflow eight bits
        3 => c.g.us(256 - q.max(1) as usize, 255) as u8,
        _ => 0,
    };
    let sum = q as u32 + r as u32;
    let must = q == 0 || r == 0 || sum > 64;
    // slots of more than 64 bits are a listed finding (C11)
    if !must && r > 61 {
        return Ok(());
    }
    let h = sip(c.g.u64(), 3);
    let what = format!("QuotientFilter with {} + {} bits", q, r);
    for i in 0..2 {
        let x = panics(|| if i == 0 { QuotientFilter::<u64>::with_hasher(q, r, h) } else { QuotientFilter::<u64>::new(q, r) });
        if let Some(mut f) = judge(c, must, &what, x)? {
            ensure_eq!((f.quotient_bits(), f.remainder_bits(), f.len()), (q, r, 0), "{}: accessors", what);
            ensure!(f.is_empty() && f.capacity() == 1 << q, "{}: capacity {}", what, f.capacity());
            ensure!(i == 1 || *f.hasher() == h, "{}: hash builder", what);
            let k = c.g.u64();
            ensure!(!f.contains(&k), "{}: the new filter contains {}", what, k);
            f.insert(&k);
            ensure!(f.contains(&k) && f.len() == 1 && !f.is_empty(), "{}: {} is missing", what, k);
            f.remove(&k);
            ensure!(!f.contains(&k) && f.is_empty(), "{}: {} is still present", what, k);
        }
    }
    c.label_if(q as u32 + r as u32 > 255, "sum above 255");
    c.label_if((63..=66).contains(&sum), "next to the limit");
    c.nontrivial();
    Ok(())
}

const BAD_P: [f64; 9] = [0.0, 1.0, -0.0, -0.5, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON];

fn c29_quotient_fpp(c: &mut Case) -> R {
    let cap = if c.g.chance(1, 4) { 0 } else { c.g.logu(1, 3000) };
    let (fpp, good) = match c.g.weighted(&[4, 2, 1]) {
        0 => (c.g.flog(1e-15, 0.999), true),
        1 => (c.g.of(&BAD_P), false),
        _ => (c.g.of(&[1e-18, 5e-17, 1.0 - f64::EPSILON / 2.0, 0.9999999, f64::MIN_POSITIVE]), true),
    };
    let must = cap == 0 || !good;
    let what = format!("QuotientFilter::from_fpp({}, {:e})", cap, fpp);
    let h = sip(c.g.u64(), 3);
    for i in 0..2 {
        let x = panics(|| if i == 0 { QuotientFilter::<u64>::from_fpp_with_hasher(cap, fpp, h) } else { QuotientFilter::<u64>::from_fpp(cap, fpp) });
        if let Some(f) = judge(c, must, &what, x)? {
            ensure!(f.is_empty() && f.len() == 0, "{}: not empty", what);
            ensure!(f.capacity() >= cap && f.capacity() as f64 <= 4.0 * cap as f64, "{}: capacity {}", what, f.capacity());
            ensure!(f.remainder_bits() >= 1 && f.quotient_bits() as u32 + f.remainder_bits() as u32 <= 64, "{}: bits {} + {}", what, f.quotient_bits(), f.remainder_bits());
            let k = c.g.u64();
            let mut f = f;
            f.insert(&k);
            ensure!(f.contains(&k), "{}: {} is missing", what, k);
        }
    }
    c.nontrivial();
    Ok(())
}

fn c29_cuckoo(c: &mut Case) -> R {
    let h = two(c);
    let n = if c.g.chance(1, 5) { 0 } else { c.g.logu(1, 2000) };
    let any_bits = |c: &mut Case| match c.g.weighted(&[4, 2, 1, 1]) {
        0 => c.g.us(1, 64),
        1 => 65 + c.g.us(0, 3),
        2 => 0,
        _ => c.g.of(&[1usize, 2, 63, 64, 128, 256, 1 << 32, usize::MAX]),
    };
    let entries = |c: &mut Case| if c.g.chance(1, 5) { 0 } else { c.g.us(1, 16) };
    let default = c.g.chance(1, 3);
    type F = CuckooFilter<u64>;
    let check = |c: &mut Case, what: &str, f: F, e: Option<usize>, fb: Option<usize>| -> R {
        ensure!(f.is_empty() && f.len() == 0 && f.extra_items_len() == 0 && !f.is_nearly_full(), "{}: not empty", what);
        let e = e.unwrap_or(f.entries_per_index());
        ensure_eq!((f.entries_per_index(), f.fingerprint_bit_count()), (e, fb.unwrap_or(f.fingerprint_bit_count())), "{}: accessors", what);
        ensure_eq!((f.bucket_len(), f.capacity()), (((n + e - 1) / e).next_power_of_two(), ((n + e - 1) / e).next_power_of_two() * e), "{}: buckets and slots", what);
        ensure!((1..=64).contains(&f.fingerprint_bit_count()), "{}: {} bits", what, f.fingerprint_bit_count());
        let mut f = f;
        let k = c.g.u64();
        ensure!(!f.contains(&k), "{}: the new filter contains {}", what, k);
        f.insert(&k);
        ensure!(f.contains(&k) && !f.is_empty(), "{}: {} is missing", what, k);
        f.remove(&k);
        ensure!(!f.contains(&k) && f.is_empty(), "{}: {} is still present", what, k);
        Ok(())
    };
    match c.g.idx(4) {
        0 => {
            let what = format!("CuckooFilter::new({})", n);
            let x = panics(|| if default { F::new(n) } else { F::with_hashers(n, h) });
            if let Some(f) = judge(c, n == 0, &what, x)? {
                check(c, &what, f, Some(4), Some(8))?;
            }
        }
        1 => {
            let (fb, e) = (any_bits(c), entries(c));
            let what = format!("CuckooFilter::from_parameters({}, {}, {})", n, fb, e);
            let must = n == 0 || fb == 0 || fb > 64 || e == 0;
            let x = panics(|| if default { F::from_parameters(n, fb, e) } else { F::from_parameters_with_hashers(n, fb, e, h) });
            if let Some(f) = judge(c, must, &what, x)? {
                c.label_if(fb == 1 || fb == 64, "extreme width accepted");
                check(c, &what, f, Some(e), Some(fb))?;
            }
        }
        2 => {
            let (fpp, e) = (c.g.flog(1e-15, 0.999), entries(c));
            let what = format!("CuckooFilter::from_entries_per_index({}, {:e}, {})", n, fpp, e);
            let x = panics(|| if default { F::from_entries_per_index(n, fpp, e) } else { F::from_entries_per_index_with_hashers(n, fpp, e, h) });
            if let Some(f) = judge(c, n == 0 || e == 0, &what, x)? {
                check(c, &what, f, Some(e), None)?;
            }
        }
        _ => {
            let fb = any_bits(c);
            let fpp = match c.g.weighted(&[2, 2]) {
                0 => c.g.flog(1e-15, 0.999),
                // next to the best that one entry per bucket can do
                _ => (-(2.0 * c.g.unit(0.8, 2.5) * (-1.0 / (2f64.powi(fb.clamp(2, 64) as i32) - 1.0)).ln_1p()).exp_m1()).clamp(1e-300, 0.999),
            };
            let best = if (1..=64).contains(&fb) {
                // false positive probability of one full bucket pair with one entry each
                if fb == 1 { 1.0 } else { -(2.0 * (-1.0 / (2f64.powi(fb as i32) - 1.0)).ln_1p()).exp_m1() }
            } else {
                0.0
            };
            if (fpp / best - 1.0).abs() < 1e-6 {
                return Ok(());
            }
            let must = n == 0 || fb == 0 || fb > 64 || fpp < best;
            let what = format!("CuckooFilter::from_fingerprint_bit_count({}, {:e}, {})", n, fpp, fb);
            let x = panics(|| {
                if default {
                    F::from_fingerprint_bit_count(n, fpp, fb)
                } else {
                    F::from_fingerprint_bit_count_with_hashers(n, fpp, fb, h)
                }
            });
            c.label_if((1..=64).contains(&fb) && n > 0 && fpp < best, "impossible probability");
            if let Some(f) = judge(c, must, &what, x)? {
                check(c, &what, f, None, Some(fb))?;
            }
        }
    }
    c.nontrivial();
    Ok(())
}

fn c29_hll(c: &mut Case) -> R {
    let h = sip(c.g.u64(), 4);
    let (e, good) = match c.g.weighted(&[4, 2, 1]) {
        0 => (c.g.flog(0.005, 0.9999), true),
        1 => (c.g.of(&BAD_P), false),
        _ => (c.g.of(&[1.0 - f64::EPSILON / 2.0, 0.0101562, 0.001, 0.00051]), true),
    };
    let what = format!("HyperLogLog::new({:e})", e);
    for i in 0..2 {
        let x = panics(|| if i == 0 { HyperLogLog::<u64>::with_hasher(e, h) } else { HyperLogLog::<u64>::new(e) });
        if let Some(f) = judge(c, !good, &what, x)? {
            ensure!(f.is_empty() && f.len() == 0.0, "{}: not empty", what);
            ensure!(i == 1 || *f.hasher() == h, "{}: hash builder", what);
            let mut f = f;
            f.insert(&c.g.u64());
            ensure!(!f.is_empty() && f.len() > 0.0 && f.len().is_finite(), "{}: estimate {} of one item", what, f.len());
            let old = f.len();
            // merging with one's own like
            let mut g = HyperLogLog::<u64>::with_hasher(e, *f.hasher());
            let r = panics(|| {
                g.merge(&f);
                g.len()
            });
            ensure!(r == Ok(old), "{}: merging equal sketches gives {:?} instead of {}", what, r, old);
        }
    }
    // merging others
    let (e1, e2) = (c.g.flog(0.02, 0.9), c.g.flog(0.02, 0.9));
    let p = |e: f64| (1.04 / e).powi(2).log2();
    let (p1, p2) = (p(e1), p(e2));
    let h2 = if c.g.chance(1, 2) { h } else { sip(c.g.u64(), 5) };
    let same_e = c.g.chance(1, 3);
    let e2 = if same_e { e1 } else { e2 };
    if same_e || (p1 - p2).abs() > 1.001 {
        // errors at least two registers' doublings apart, or equal
        let must = !same_e || h2 != h;
        let mut a = HyperLogLog::<u64>::with_hasher(e1, h);
        let b = HyperLogLog::<u64>::with_hasher(e2, h2);
        let what = format!("merge of sketches with errors {} and {} and hash builders {:?} and {:?}", e1, e2, h, h2);
        judge(c, must, &what, panics(|| a.merge(&b)))?;
        c.label("merge");
    }
    c.nontrivial();
    Ok(())
}

fn c29_similarity(c: &mut Case) -> R {
    let h = two(c);
    let k = c.g.us(1, 40);
    let m = MinHash::<IntoIter<u64>, u64>::with_hashers(k, h);
    ensure_eq!((m.hasher_count(), m.hashers()), (k, &h), "MinHash accessors");
    let (la, lb) = (if c.g.chance(1, 2) { k } else { c.g.us(0, 45) }, if c.g.chance(1, 2) { k } else { c.g.us(0, 45) });
    let (a, b) = (vec![1u64; la], vec![1u64; lb]);
    if la != lb || la == k {
        let r = judge(c, la != lb, &format!("similarity of signatures of lengths {} and {}", la, lb), panics(|| m.get_similarity_from_hashes(&a, &b)))?;
        ensure!(r.unwrap_or(1.0) == 1.0, "similarity of equal signatures");
    }
    let s = SimHash::<IntoIter<u64>, u64>::with_hasher(h[0]);
    ensure_eq!(s.hasher(), &h[0], "SimHash accessor");
    let w = c.g.of(&[0usize, 1, 2, 3, 100, usize::MAX]);
    let n = c.g.us(0, 5);
    let docs = |n: usize| (0..n as u64).map(|i| vec![i, i + 1].into_iter()).collect::<Vec<_>>();
    let r = judge(c, w <= 1, &format!("SimHash window {} with {} documents", w, n), panics(|| s.report_similarities(w, docs(n))))?;
    if let Some(v) = r {
        ensure!(w < n || v.len() == n * n.saturating_sub(1) / 2, "{} pairs of {} documents in a window of {}", v.len(), n, w);
    }
    c.nontrivial();
    Ok(())
}

/// Constructors without a documented panic: every sensible argument yields an empty collection.
fn c29_others(c: &mut Case) -> R {
    let h = two(c);
    let which = c.g.idx(11);
    let fpp = match c.g.weighted(&[1, 6, 1]) {
        0 => c.g.of(&[0.999999, 0.5, 1e-15, 0.9]),
        // hundreds of hash functions; a cuckoo fingerprint has no more than 64 bits
        2 if which < 10 => c.g.flog(1e-280, 1e-12),
        _ => c.g.flog(1e-12, 0.99),
    };
    let n = c.g.logu(1, 3000);
    let k = c.g.u64();
    let default = c.g.chance(1, 3);
    tr!(c, "constructor {} n {} fpp {:e} default {}", which, n, fpp, default);
    macro_rules! empty {
        ($f:expr, $len:expr) => {{
            let f = $f;
            ensure!(f.count_ones() == 0 && f.count_zeros() == f.len(), "constructor {}({}, {:e}): {} ones, {} zeros, len {}", which, n, fpp, f.count_ones(), f.count_zeros(), f.len());
            ensure!(!f.is_empty() && f.len() > 0, "constructor {}({}, {:e}): no bits", which, n, fpp);
            ensure!(!f.contains(&k), "constructor {}({}, {:e}): the new filter contains {}", which, n, fpp, k);
            ensure!(default || *f.hashers() == h, "constructor {}: hash builders", which);
            let len: Option<usize> = $len;
            ensure!(len.unwrap_or(f.len()) == f.len(), "constructor {}({}, {:e}): {} bits", which, n, fpp, f.len());
            let mut f = f;
            f.insert(&k);
            ensure!(f.contains(&k), "constructor {}({}, {:e}): {} is missing", which, n, fpp, k);
            f
        }};
    }
    // hash functions of a stream filter, by the published formula for each of its two readings of a rounding
    let stream_k = |got: usize, len: usize| -> R {
        let x = (1.0 + fpp.ln() / (1.0 - 1.0 / std::f64::consts::E).ln() + 1.0) / 2.0;
        ensure!(got >= 1 && (got as f64 - x) >= -1e-6 && (got as f64 - x) <= 1.0 + 1e-6, "stream filter at {:e}: {} hash functions for {}", fpp, got, x);
        ensure_eq!(len, n * got, "stream filter: bits in all");
        Ok(())
    };
    match which {
        0 => {
            let f = empty!(if default { BloomFilter::<u64>::new(n, fpp) } else { BloomFilter::with_hashers(n, fpp, h) }, None);
            ensure!(f.hasher_count() >= 1, "no hash functions");
        }
        1 => {
            let items = c.g.logu(1, n * 2);
            let f = empty!(if default { BloomFilter::<u64>::from_item_count(n, items) } else { BloomFilter::from_item_count_with_hashers(n, items, h) }, Some(n));
            ensure!(f.hasher_count() >= 1, "no hash functions");
        }
        2 => {
            let f = empty!(if default { BloomFilter::<u64>::from_fpp(n, fpp) } else { BloomFilter::from_fpp_with_hashers(n, fpp, h) }, Some(n));
            ensure!(f.hasher_count() >= 1, "no hash functions");
        }
        3 => {
            let f = empty!(if default { PartitionedBloomFilter::<u64>::from_item_count(n, fpp) } else { PartitionedBloomFilter::from_item_count_with_hashers(n, fpp, h) }, None);
            ensure_eq!(f.len(), f.bit_count() * f.hasher_count(), "bits in all");
        }
        4 => {
            let f = empty!(if default { PartitionedBloomFilter::<u64>::from_bit_count(n, fpp) } else { PartitionedBloomFilter::from_bit_count_with_hashers(n, fpp, h) }, None);
            ensure_eq!((f.len(), f.bit_count()), (n * f.hasher_count(), n), "bits in all");
        }
        5 => {
            let (g, t) = (c.g.unit(1.0, 4.0), c.g.unit(0.1, 1.0));
            let f = empty!(if default { ScalableBloomFilter::<u64>::new(n, fpp, g, t) } else { ScalableBloomFilter::with_hashers(n, fpp, g, t, h) }, None);
            ensure!(f.filter_count() >= 1, "no layers");
        }
        6 => {
            let f = empty!(if default { BSBloomFilter::<u64>::new(n, fpp) } else { BSBloomFilter::with_hashers(n, fpp, h) }, None);
            ensure_eq!(f.bit_count(), n, "bits per filter");
            stream_k(f.hasher_count(), f.len())?;
        }
        7 => {
            let f = empty!(if default { BSSDBloomFilter::<u64>::new(n, fpp) } else { BSSDBloomFilter::with_hashers(n, fpp, h) }, None);
            ensure_eq!(f.bit_count(), n, "bits per filter");
            stream_k(f.hasher_count(), f.len())?;
        }
        8 => {
            let f = empty!(if default { RLBSBloomFilter::<u64>::new(n, fpp) } else { RLBSBloomFilter::with_hashers(n, fpp, h) }, None);
            ensure_eq!(f.bit_count(), n, "bits per filter");
            stream_k(f.hasher_count(), f.len())?;
        }
        9 => {
            let (r, w) = (c.g.us(1, 12), n);
            type M = CountMinSketch<CountMinStrategy, u64>;
            // an empty sketch is empty for every strategy: the others look at the total too
            macro_rules! fresh {
                ($t:ty, $w:expr) => {{
                    let eps = c.g.flog(0.003, 0.99);
                    for from_error in [false, true] {
                        let mut f = match (from_error, default) {
                            (false, true) => CountMinSketch::<$t, u64>::new(r, w),
                            (false, false) => CountMinSketch::<$t, u64>::with_hashers(r, w, h),
                            (true, true) => CountMinSketch::<$t, u64>::from_error(eps, fpp),
                            (true, false) => CountMinSketch::<$t, u64>::from_error_with_hashers(eps, fpp, h),
                        };
                        // noise is an average over the other columns
                        if f.cols() < $w {
                            continue;
                        }
                        let v = c.g.us(1, 9) as i64;
                        ensure_eq!(f.count(&k), 0, "new {} of {} x {}", stringify!($t), f.rows(), f.cols());
                        f.insert(&k, v);
                        ensure_eq!(f.count(&k), v, "only item of {} of {} x {}", stringify!($t), f.rows(), f.cols());
                        f.clear();
                        ensure_eq!(f.count(&k), 0, "cleared {} of {} x {}", stringify!($t), f.rows(), f.cols());
                    }
                }};
            }
            fresh!(CountMinStrategy, 1);
            fresh!(CountMeanStrategy, 1);
            fresh!(CountMedianBiasStrategy, 2);
            let f = if default { M::new(r, w) } else { M::with_hashers(r, w, h) };
            ensure_eq!((f.rows(), f.cols()), (r, w), "new sketch");
            let eps = c.g.flog(0.003, 0.99);
            let f = if default { M::from_error(eps, fpp) } else { M::from_error_with_hashers(eps, fpp, h) };
            ensure!(f.rows() >= 1 && f.cols() >= 2 && f.count(&k) == 0, "from_error({}, {:e}): {} x {}", eps, fpp, f.rows(), f.cols());
        }
        _ => {
            let (g, t, e) = (c.g.unit(1.0, 4.0), c.g.unit(0.1, 1.0), c.g.us(1, 8));
            type F = ScalableCuckooFilter<u64>;
            let mut f = match (default, c.g.chance(1, 2)) {
                (true, true) => F::from_entries_per_index(n, fpp, e, g, t),
                (true, false) => F::new(n, fpp, g, t),
                (false, true) => F::from_entries_per_index_with_hashers(n, fpp, e, g, t, h),
                (false, false) => F::with_hashers(n, fpp, g, t, h),
            };
            ensure!(f.is_empty() && f.len() == 0 && f.filter_count() == 1 && f.capacity() >= n && !f.contains(&k), "new scalable cuckoo filter: len {} layers {} capacity {}", f.len(), f.filter_count(), f.capacity());
            f.insert(&k);
            ensure!(f.contains(&k) && f.len() == 1, "{} is missing", k);
        }
    }
    c.nontrivial();
    Ok(())
}

fn c29_known_hll() -> R {
    match panics(|| HyperLogLog::<u64>::with_hasher(0.0002, sip(1, 1)).is_empty()) {
        Ok(true) => Ok(()),
        Ok(false) => fail!("not empty"),
        Err(e) => fail!("panics: {}", e),
    }
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "all; labels tell accepted from rejected arguments",
        assumptions: &["tables beyond some thousand slots are not allocated", "probabilities within 1e-6 of a rounding boundary are not judged"],
        scenarios: vec![
            Scenario { name: "quotient", cases: 18000, thorough: 40, f: c29_quotient },
            Scenario { name: "quotient_fpp", cases: 18000, thorough: 40, f: c29_quotient_fpp },
            Scenario { name: "cuckoo", cases: 48000, thorough: 40, f: c29_cuckoo },
            Scenario { name: "hll", cases: 2000, thorough: 20, f: c29_hll },
            Scenario { name: "similarity", cases: 9000, thorough: 40, f: c29_similarity },
            Scenario { name: "others", cases: 24000, thorough: 40, f: c29_others },
        ],
        known: vec![KnownProbe {
            sig: "hll-small-error",
            what: "HyperLogLog::new(0.0002) panics although the documentation admits every error in (0, 1): more than 2^24 registers are refused",
            f: c29_known_hll,
        }],
    }
}
