//! C19-C20: Bloom filters for streams (biased sampling, single deletion, randomised load balancing).
use crate::keys::*;
use engine::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::SipHasherBuilder;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Bs,
    Bssd,
    Rlbs,
}
#[derive(Clone)]
enum F {
    Bs(BSBloomFilter<u64, HB>),
    Bssd(BSSDBloomFilter<u64, HB>),
    Rlbs(RLBSBloomFilter<u64, HB>),
}
macro_rules! each {
    ($s:expr, $f:ident => $e:expr) => {
        match $s {
            F::Bs($f) => $e,
            F::Bssd($f) => $e,
            F::Rlbs($f) => $e,
        }
    };
}
impl F {
    fn new(kind: Kind, bits: usize, fpp: f64, hb: [HB; 2]) -> F {
        match kind {
            Kind::Bs => F::Bs(BSBloomFilter::with_hashers(bits, fpp, hb)),
            Kind::Bssd => F::Bssd(BSSDBloomFilter::with_hashers(bits, fpp, hb)),
            Kind::Rlbs => F::Rlbs(RLBSBloomFilter::with_hashers(bits, fpp, hb)),
        }
    }
    fn insert(&mut self, k: u64) {
        each!(self, f => f.insert(&k))
    }
    fn contains(&self, k: u64) -> bool {
        each!(self, f => f.contains(&k))
    }
    fn ones(&self) -> usize {
        each!(self, f => f.count_ones())
    }
    fn zeros(&self) -> usize {
        each!(self, f => f.count_zeros())
    }
    fn len(&self) -> usize {
        each!(self, f => f.len())
    }
    fn bit_count(&self) -> usize {
        each!(self, f => f.bit_count())
    }
    fn k(&self) -> usize {
        each!(self, f => f.hasher_count())
    }
    fn clear(&mut self) {
        each!(self, f => f.clear())
    }
    fn bits(&self) -> Vec<u8> {
        each!(self, f => bincode::serialize(f).expect("serialize"))
    }
}
fn kind(c: &mut Case) -> Kind {
    let k = c.g.of(&[Kind::Bs, Kind::Bssd, Kind::Rlbs]);
    c.label(match k {
        Kind::Bs => "biased sampling",
        Kind::Bssd => "single deletion",
        Kind::Rlbs => "load balanced",
    });
    k
}

/// A filter of as many partitions without deletions, on the same hash builders.
fn shadow(bits: usize, k: usize, hb: [HB; 2]) -> Option<PartitionedBloomFilter<u64, HB>> {
    let f = PartitionedBloomFilter::from_bit_count_with_hashers(bits, 0.5f64.powi(k as i32) * 1.2, hb);
    if f.hasher_count() == k && f.bit_count() == bits {
        Some(f)
    } else {
        None
    }
}

fn c19_history(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = match c.g.weighted(&[3, 3, 1]) {
        0 => c.g.us(1, 12),
        1 => c.g.us(2, 64),
        _ => c.g.us(64, 400),
    };
    let fpp = c.g.flog(1e-5, 0.97);
    let hb = any_pair(&mut c.g);
    label_hb(c, &hb[0]);
    let mut f = F::new(kind, bits, fpp, hb);
    let k = f.k();
    tr!(c, "{:?} bits {} fpp {:.5} -> k {} hashers {:?}", kind, bits, fpp, k, hb);
    ensure_eq!((f.len(), f.bit_count(), f.ones()), (bits * k, bits, 0), "new filter");
    let n = c.g.us(2, 40);
    let keys = pool(&mut c.g, n);
    // bits of single items: one per sub-filter; and the no-deletion filter agrees on single items
    let mut sh = shadow(bits, k, hb);
    for i in 0..3.min(n) {
        let mut one = F::new(kind, bits, fpp, hb);
        one.insert(keys[i]);
        ensure_eq!(one.ones(), k, "bits set by the first item of an empty filter");
        if let Some(s) = shadow(bits, k, hb).as_mut() {
            s.insert(&keys[i]);
            if keys.iter().any(|x| s.contains(x) != one.contains(*x)) {
                sh = None;
            }
        }
    }
    c.label(if sh.is_some() { "shadowed" } else { "no shadow" });
    let cmax = match kind {
        Kind::Bssd => 1,
        _ => k,
    };
    let steps = c.g.us(1, 150);
    let (mut fresh, mut dup, mut lost) = (0, 0, 0);
    for step in 0..steps {
        if c.g.chance(1, 60) {
            tr!(c, "clear");
            f.clear();
            sh = sh.and_then(|_| shadow(bits, k, hb));
            ensure_eq!(f.ones(), 0, "ones after clear");
            ensure!(keys.iter().all(|x| !f.contains(*x)), "an item is present after clear");
            continue;
        }
        let x = *c.g.pick(&keys);
        let was = f.contains(x);
        let ones = f.ones();
        let ans: Vec<bool> = keys.iter().map(|y| f.contains(*y)).collect();
        let img = if was { f.bits() } else { Vec::new() };
        f.insert(x);
        if let Some(s) = sh.as_mut() {
            s.insert(&x);
        }
        tr!(c, "insert {} (present: {}): ones {} -> {}", x, was, ones, f.ones());
        ensure!(f.contains(x), "{} absent right after its insertion in step {}", x, step);
        ensure_eq!(f.ones() + f.zeros(), bits * k, "ones + zeros");
        ensure_eq!((f.len(), f.bit_count(), f.k()), (bits * k, bits, k), "parameters");
        let now: Vec<bool> = keys.iter().map(|y| f.contains(*y)).collect();
        if was {
            dup += 1;
            ensure!(f.bits() == img, "inserting the present item {} changes the filter", x);
            ensure_eq!((f.ones(), &now), (ones, &ans), "inserting the present item {} changes answers", x);
        } else {
            fresh += 1;
            ensure!(f.ones() <= ones + k, "one insertion sets {} more bits with {} sub-filters", f.ones() - ones, k);
            // at least one bit was clear and is set now
            ensure!(
                f.ones() + cmax >= ones + 1,
                "one insertion clears too many bits: {} ones before, {} after, at most {} may be cleared", ones, f.ones(), cmax
            );
            if ones == 0 {
                ensure_eq!(f.ones(), k, "bits set by the first item");
            }
            lost += keys.iter().enumerate().filter(|(i, _)| ans[*i] && !now[*i]).count();
        }
        if let Some(s) = &sh {
            for (i, y) in keys.iter().enumerate() {
                ensure!(!now[i] || s.contains(y), "{} is reported present although no filter without deletions would", y);
            }
        }
    }
    c.label_if(lost > 0, "an item was forgotten");
    c.label_if(dup > 0, "a present item was inserted");
    if fresh >= 3 {
        c.nontrivial();
    }
    Ok(())
}

/// Reads the single bits of a filter out of its JSON form. How they are laid out is found by trying; a layout is
/// accepted only if single items show one bit per sub-filter and the number of ones is right throughout.
#[derive(Clone, Copy, Debug)]
struct Layout {
    word: usize,
    msb: bool,
    joined: bool,
}
fn int_arrays(v: &serde_json::Value, out: &mut Vec<Vec<u64>>) {
    match v {
        serde_json::Value::Array(a) => {
            if !a.is_empty() && a.iter().all(|x| x.is_u64()) {
                out.push(a.iter().map(|x| x.as_u64().unwrap()).collect());
            } else {
                a.iter().for_each(|x| int_arrays(x, out));
            }
        }
        serde_json::Value::Object(m) => m.values().for_each(|x| int_arrays(x, out)),
        _ => {}
    }
}
impl Layout {
    /// One vector of booleans per sub-filter.
    fn read(&self, f: &F) -> Option<Vec<Vec<bool>>> {
        let v = each!(f, f => serde_json::to_value(f).ok())?;
        let mut arrays = Vec::new();
        int_arrays(&v, &mut arrays);
        let (b, k) = (f.bit_count(), f.k());
        let unpack = |a: &Vec<u64>, n: usize| -> Option<Vec<bool>> {
            if a.len() < n.div_ceil(self.word) || a.len() > n.div_ceil(self.word) + 1 || (self.word < 64 && a.iter().any(|x| x >> self.word != 0)) {
                return None;
            }
            Some(
                (0..n)
                    .map(|i| {
                        let o = i % self.word;
                        a[i / self.word] >> if self.msb { self.word - 1 - o } else { o } & 1 == 1
                    })
                    .collect(),
            )
        };
        if self.joined {
            let all = arrays.iter().find_map(|a| unpack(a, b * k))?;
            Some(all.chunks(b).map(|x| x.to_vec()).collect())
        } else {
            let all: Vec<Vec<bool>> = arrays.iter().filter_map(|a| unpack(a, b)).collect();
            if all.len() == k {
                Some(all)
            } else {
                None
            }
        }
    }
    fn find(kind: Kind, bits: usize, fpp: f64, hb: [HB; 2]) -> Option<Layout> {
        let empty = F::new(kind, bits, fpp, hb);
        'next: for i in 0..16 {
            let l = Layout { word: [8, 64, 32, 16][i / 4], msb: i & 1 == 1, joined: i & 2 == 0 };
            let mut all = empty.clone();
            for x in 0..6u64 {
                let mut one = empty.clone();
                one.insert(x.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                match l.read(&one) {
                    Some(v) if v.iter().all(|s| s.iter().filter(|x| **x).count() == 1) => {}
                    _ => continue 'next,
                }
                all.insert(x);
                match l.read(&all) {
                    Some(v) if v.iter().flatten().filter(|x| **x).count() == all.ones() => {}
                    _ => continue 'next,
                }
            }
            return Some(l);
        }
        None
    }
}

/// The positions, one per sub-filter, that an item takes in an empty filter.
fn own_bits(l: &Layout, empty: &F, x: u64) -> Option<Vec<usize>> {
    let mut one = empty.clone();
    one.insert(x);
    l.read(&one)?.iter().map(|s| s.iter().position(|x| *x)).collect()
}

/// Exactly which bits one insertion may set and clear.
fn c19_bits(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = match c.g.weighted(&[5, 3, 1]) {
        0 => c.g.us(1, 8),
        1 => c.g.us(1, 40),
        _ => c.g.us(40, 150),
    };
    // mostly few sub-filters, which get fuller
    let fpp = if c.g.chance(3, 4) { c.g.unit(0.05, 0.98) } else { c.g.flog(1e-4, 0.9) };
    let hb = any_pair(&mut c.g);
    let empty = F::new(kind, bits, fpp, hb);
    let k = empty.k();
    let Some(layout) = Layout::find(kind, bits, fpp, hb) else {
        c.label("unobserved");
        return Ok(());
    };
    let mut f = empty.clone();
    let mut rng = Sm::new(c.g.seed());
    let steps = if c.g.chance(1, 6) { c.g.us(120, 1500) } else { c.g.us(1, 120) };
    let dense = c.g.chance(1, 2);
    tr!(c, "{:?} bits {} fpp {:.5} -> k {} hashers {:?}; {:?}", kind, bits, fpp, k, hb, layout);
    let mut before = match layout.read(&f) {
        Some(x) => x,
        None => fail!("the bits of an empty filter cannot be read"),
    };
    let (mut inserted, mut cleared_any) = (0, 0);
    for step in 0..steps {
        let x = if dense { rng.below(64) } else { rng.next() };
        let own = own_bits(&layout, &empty, x).unwrap_or_default();
        ensure_eq!(own.len(), k, "sub-filters the item {} sets a bit in", x);
        let was = f.contains(x);
        ensure_eq!(was, own.iter().enumerate().all(|(i, p)| before[i][*p]), "answer for {} against its bits {:?}", x, own);
        f.insert(x);
        let after = match layout.read(&f) {
            Some(x) => x,
            None => fail!("the bits cannot be read after step {}", step),
        };
        tr!(c, "insert {} (bits {:?}, present {}): ones {}", x, own, was, f.ones());
        ensure_eq!(after.iter().flatten().filter(|x| **x).count(), f.ones(), "count_ones after step {}", step);
        if was {
            ensure!(after == before, "inserting the present item {} changes bits", x);
            continue;
        }
        inserted += 1;
        let mut cleared = 0;
        for i in 0..k {
            ensure!(after[i][own[i]], "bit {} of sub-filter {} is clear right after inserting {}", own[i], i, x);
            let mut here = 0;
            for p in 0..bits {
                let (a, b) = (before[i][p], after[i][p]);
                ensure!(!b || a || p == own[i], "inserting {} sets bit {} of sub-filter {} although its bit is {}", x, p, i, own[i]);
                here += (a && !b) as usize;
            }
            ensure!(here <= 1, "inserting {} clears {} bits of sub-filter {}", x, here, i);
            cleared += here;
        }
        if kind == Kind::Bssd {
            ensure!(cleared <= 1, "inserting {} clears {} bits under single deletion", x, cleared);
        }
        cleared_any += (cleared > 0) as usize;
        before = after;
        if f.ones() * 10 >= f.len() * 9 {
            c.label("load of nine tenths");
            c.label_if(f.ones() * 20 >= f.len() * 19 && bits > 20, "load of 19/20, more than 20 bits");
        }
    }
    c.label_if(k == 1, "one sub-filter");
    if inserted >= 2 && cleared_any >= 1 {
        c.nontrivial();
    }
    Ok(())
}

/// In one sub-filter's terms: a fresh item must never lose one of its own bits to the deletion of the same step.
fn c19_stream(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = c.g.logu(1, 300);
    let fpp = c.g.flog(1e-6, 0.97);
    let hb = any_pair(&mut c.g);
    let mut f = F::new(kind, bits, fpp, hb);
    let k = f.k();
    let cmax = if kind == Kind::Bssd { 1 } else { k };
    let mut rng = Sm::new(c.g.seed());
    let n = 1200;
    tr!(c, "{:?} bits {} fpp {:.5} -> k {} hashers {:?}, stream of {}", kind, bits, fpp, k, hb, n);
    for i in 0..n {
        let x = rng.next();
        let (was, ones) = (f.contains(x), f.ones());
        f.insert(x);
        ensure!(f.contains(x), "item {} of the stream absent right after its insertion", i);
        let now = f.ones();
        if was {
            ensure_eq!(now, ones, "ones after inserting a present item");
        } else {
            ensure!(now <= ones + k && now + cmax >= ones + 1, "item {} takes the ones from {} to {} with k {}", i, ones, now, k);
        }
        ensure_eq!(f.ones() + f.zeros(), f.len(), "ones + zeros");
    }
    c.nontrivial();
    Ok(())
}

fn c19_default(c: &mut Case) -> R {
    // constructors seeding themselves, and borrowed keys
    let (bits, fpp) = (c.g.us(1, 100), c.g.flog(1e-5, 0.97));
    let n = c.g.us(1, 60);
    macro_rules! run {
        ($t:ident) => {{
            let mut f = $t::<String>::new(bits, fpp);
            ensure_eq!(f.count_ones(), 0, "new filter");
            let mut g = $t::<String, SipHasherBuilder>::with_hashers(bits, fpp, *f.hashers());
            ensure_eq!((f.len(), f.bit_count(), f.hasher_count()), (g.len(), g.bit_count(), g.hasher_count()), "parameters");
            for i in 0..n {
                let s = format!("key {}", i);
                f.insert(s.as_str());
                ensure!(f.contains(s.as_str()) && f.contains(&s), "{} absent right after its insertion", s);
                g.insert(&s);
                ensure!(g.contains(s.as_str()), "{} absent right after its insertion", s);
            }
        }};
    }
    run!(BSBloomFilter);
    run!(BSSDBloomFilter);
    run!(RLBSBloomFilter);
    tr!(c, "bits {} fpp {} {} string keys", bits, fpp, n);
    c.nontrivial();
    Ok(())
}

fn c19_huge(c: &mut Case) -> R {
    // sub-filters of more than 2^32 bits; only a few pages are touched
    let kind = kind(c);
    let bits = if kind == Kind::Rlbs { (1usize << 31) + c.g.us(1, 1 << 30) } else { (1usize << 32) + c.g.us(1, 1 << 31) };
    let hb = good_pair(&mut c.g);
    let mut f = F::new(kind, bits, c.g.unit(0.65, 0.95), hb);
    let k = f.k();
    ensure_eq!((f.bit_count(), f.len(), f.ones()), (bits, bits * k, 0), "new filter");
    let mut s = Sm::new(c.g.seed());
    let n = c.g.us(300, 1500);
    tr!(c, "{:?} {} x {} bits, {} items", kind, k, bits, n);
    let mut keys = vec![];
    for _ in 0..n {
        let x = s.next();
        f.insert(x);
        ensure!(f.contains(x), "{} is missing right after its insertion", x);
        keys.push(x);
    }
    // 2^32 bits and a few thousand set: hardly any position is shared or deleted
    ensure!(f.ones() + 3 >= n * k && f.ones() <= n * k, "{} bits set by {} items of {} bits", f.ones(), n, k);
    ensure_eq!(f.zeros(), f.len() - f.ones(), "zeros");
    let kept = keys.iter().filter(|x| f.contains(**x)).count();
    ensure!(kept + 2 >= n, "{} of {} items kept", kept, n);
    ensure!((0..4000).all(|_| !f.contains(s.next())), "a never inserted item is reported");
    c.nontrivial();
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "history: at least three insertions of items reported absent; bits: two of them and at least one bit cleared; stream, default, huge: all",
        assumptions: &["bits are observed through the JSON form (bits; skipped and counted as unobserved if no layout fits), and through counts, answers and a partitioned filter on the same hash builders (history)"],
        scenarios: vec![
            Scenario { name: "huge", cases: 9, thorough: 4, f: c19_huge },
            Scenario { name: "history", cases: 71000, thorough: 40, f: c19_history },
            Scenario { name: "bits", cases: 20000, thorough: 40, f: c19_bits },
            Scenario { name: "stream", cases: 12000, thorough: 40, f: c19_stream },
            Scenario { name: "default", cases: 5000, thorough: 20, f: c19_default },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C20

/// The expected change of the number of ones by one stream item, given the state, at every step.
fn c20_drift(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = match kind {
        // sub-filters may differ in load, which only matters for the load balanced variant when they are small
        Kind::Rlbs => c.g.logu(300, 2000),
        _ => c.g.logu(2, 1500),
    };
    let fpp = c.g.flog(1e-4, 0.9);
    let hb = good_pair(&mut c.g);
    let mut f = F::new(kind, bits, fpp, hb);
    let (b, k) = (bits as f64, f.k() as f64);
    let mut rng = Sm::new(c.g.seed());
    let steps = c.g.us(3, 12) * bits.clamp(300, 1500);
    let (mut sum, mut sq) = (0.0, 0.0);
    let mut moved = 0u64;
    for _ in 0..steps {
        let x = rng.next();
        let ones = f.ones() as f64;
        let zeros = f.zeros() as f64;
        let contained = f.contains(x);
        f.insert(x);
        let delta = f.ones() as f64 - ones;
        let nc = if contained { 0.0 } else { 1.0 };
        // every position of the item is uniform in its sub-filter; every deleted position as well
        let hit = ones / b - k * (1.0 - nc);
        let expected = match kind {
            Kind::Bs => zeros / b - nc * ones / b + hit / b,
            Kind::Bssd => zeros / b - nc * ones / (b * k) + hit / (b * k),
            Kind::Rlbs => zeros / b - nc * (ones / (b * k)) * ones / b + hit / b * (ones / (b * k)),
        };
        let m = delta - expected;
        sum += m;
        sq += m * m;
        moved += nc as u64;
    }
    let t = steps as f64;
    let slack = if kind == Kind::Rlbs { t * k * 0.5 / b } else { 0.0 };
    let lim = SIGMA * sq.sqrt() + 12.0 * k + slack;
    tr!(c, "{:?} bits {} k {} stream {} ({} inserted): ones {} of {}, drift {:.1}, limit {:.1}", kind, bits, k, steps, moved, f.ones(), f.len(), sum, lim);
    ensure!(
        sum.abs() <= lim,
        "{:?} with {} sub-filters of {} bits: over {} items the number of ones moved {:.1} away from the expected, limit {:.1}", kind, k, bits, steps, sum, lim
    );
    if moved as f64 > 0.05 * t {
        c.nontrivial();
    }
    Ok(())
}

/// Load at which as many bits are set as deleted.
fn fixed_point(kind: Kind, k: f64) -> f64 {
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..100 {
        let p: f64 = (lo + hi) / 2.0;
        let del = match kind {
            Kind::Bs => p,
            _ => p * p,
        };
        if (1.0 - p) - (1.0 - p.powf(k)) * del > 0.0 {
            lo = p;
        } else {
            hi = p;
        }
    }
    lo
}

fn c20_steady(c: &mut Case) -> R {
    let kind = c.g.of(&[Kind::Bs, Kind::Rlbs]);
    let bits = c.g.logu(300, 3000);
    let fpp = c.g.flog(1e-6, 0.4);
    let hb = good_pair(&mut c.g);
    let mut f = F::new(kind, bits, fpp, hb);
    let k = f.k() as f64;
    let len = f.len() as f64;
    let want = fixed_point(kind, k);
    let mut rng = Sm::new(c.g.seed());
    for _ in 0..12 * bits {
        f.insert(rng.next());
    }
    let samples = 40;
    let (mut load, mut pred) = (0.0, 0.0);
    let (mut fp, mut q) = (0.0, 0.0);
    for _ in 0..samples {
        for _ in 0..bits / 3 {
            f.insert(rng.next());
        }
        let p = f.ones() as f64 / len;
        load += p / samples as f64;
        for _ in 0..100 {
            fp += f.contains(rng.next()) as u8 as f64;
            q += 1.0;
            pred += p.powf(k);
        }
    }
    let tol = 0.01 + 1.0 / bits as f64 + SIGMA * (0.25 / (len * 8.0)).sqrt();
    tr!(c, "{:?} bits {} k {}: load {:.4} (expected {:.4} +- {:.4}), false positives {} of {} (load^k {:.5})", kind, bits, k, load, want, tol, fp, q, pred / q);
    ensure!((load - want).abs() <= tol, "{:?} with {} sub-filters of {} bits settles at load {:.4}, expected {:.4}", kind, k, bits, load, want);
    // unequal sub-filters, and items sharing all positions by double hashing, cost a little
    let (lo, hi) = (pred / q * 0.85, pred / q * 1.15 + 6.0 / bits as f64);
    ensure!(
        fp <= upper(q, hi) && fp >= lower(q, lo),
        "{:?} with {} sub-filters of {} bits at load {:.4}: false positive rate {:.5}, expected about {:.5}", kind, k, bits, load, fp / q, pred / q
    );
    c.nontrivial();
    Ok(())
}

/// Deletions hit every position of every sub-filter alike, independently of each other.
fn c20_deletions(c: &mut Case) -> R {
    let kind = kind(c);
    // few cells, so that each is deleted often, or many
    let tiny = c.g.chance(1, 2);
    let bits = if tiny { c.g.us(2, 12) } else { c.g.logu(2, 60) };
    let fpp = if tiny && c.g.chance(1, 2) { c.g.flog(1e-8, 1e-2) } else { c.g.flog(1e-3, 0.9) };
    let hb = good_pair(&mut c.g);
    let empty = F::new(kind, bits, fpp, hb);
    let k = empty.k();
    let Some(layout) = Layout::find(kind, bits, fpp, hb) else {
        c.label("unobserved");
        return Ok(());
    };
    let mut rng = Sm::new(c.g.seed());
    let steps = 400_000 / (bits * k + 40);
    let (bf, kf) = (bits as f64, k as f64);
    // observed, expected and variance of: each position, each sub-filter, pairs of sub-filters, equal positions in
    // pairs of sub-filters, the position after the previous deletion
    #[derive(Clone, Copy, Default)]
    struct T(f64, f64, f64);
    impl T {
        fn add(&mut self, hit: bool, p: f64) {
            self.0 += hit as u8 as f64;
            self.1 += p;
            self.2 += p * (1.0 - p);
        }
        fn bad(&self) -> bool {
            let (d, s) = (self.0 - self.1, (SIGMA + 1.0) * self.2.sqrt());
            // a count cannot be this far below its expectation, even a small one: P(0) = exp(-expected)
            d > s + 12.0 || -d > s.min(0.93 * self.1 + 3.0) + 6.0
        }
    }
    let mut cell = vec![vec![T::default(); bits]; k];
    let mut sub = vec![T::default(); k];
    let (mut pairs, mut same, mut next) = (T::default(), T::default(), T::default());
    let mut column = vec![T::default(); bits];
    let (mut inserted, mut deleted) = (0u64, 0u64);
    let (mut draws, mut todo) = (steps * 8, steps);
    let mut fulls = 0;
    // a full filter takes no more items: start afresh
    while draws > 0 && todo > 0 {
        let mut f = F::new(kind, bits, fpp, hb);
        let mut before = vec![vec![false; bits]; k];
        let mut last: Vec<Option<usize>> = vec![None; k];
        for turn in 0..steps / 4 + 1 {
            if draws == 0 {
                break;
            }
            draws -= 1;
            if turn % 16 == 0 && f.ones() == f.len() {
                fulls += 1;
                break;
            }
            let x = rng.next();
            if f.contains(x) {
                continue;
            }
            if todo == 0 {
                break;
            }
            todo -= 1;
            let own = own_bits(&layout, &empty, x).unwrap_or_default();
            f.insert(x);
            let after = match layout.read(&f) {
                Some(a) if own.len() == k => a,
                _ => fail!("the bits cannot be read"),
            };
            inserted += 1;
            let mut rate = vec![0.0; k];
            let mut hit = vec![None; k];
            for i in 0..k {
                let ones = before[i].iter().filter(|x| **x).count() as f64;
                let each = match kind {
                    Kind::Bs => 1.0 / bf,
                    Kind::Bssd => 1.0 / (bf * kf),
                    Kind::Rlbs => ones / bf / bf,
                };
                for p in 0..bits {
                    if before[i][p] && p != own[i] {
                        let h = !after[i][p];
                        cell[i][p].add(h, each);
                        column[p].add(h, each);
                        rate[i] += each;
                        if h {
                            hit[i] = Some(p);
                            deleted += 1;
                        }
                        if last[i].map(|q| (q + 1) % bits == p) == Some(true) {
                            next.add(h, each);
                        }
                    }
                }
                sub[i].add(hit[i].is_some(), rate[i].min(1.0));
                if hit[i].is_some() {
                    last[i] = hit[i];
                }
            }
            for i in 0..k {
                for j in 0..i {
                    let p = if kind == Kind::Bssd { 0.0 } else { rate[i] * rate[j] };
                    pairs.add(hit[i].is_some() && hit[j].is_some(), p.min(1.0));
                    let both = (0..bits).filter(|p| before[i][*p] && before[j][*p] && own[i] != *p && own[j] != *p).count() as f64;
                    let e = if kind == Kind::Bssd || both == 0.0 {
                        0.0
                    } else {
                        let n = |i: usize| (0..bits).filter(|p| before[i][*p] && own[i] != *p).count() as f64;
                        both * rate[i] / n(i) * rate[j] / n(j)
                    };
                    same.add(hit[i].is_some() && hit[i] == hit[j], e.min(1.0));
                }
            }
            before = after;
        }
    }
    c.label_if(fulls > 0, "filled up");
    tr!(c, "{:?} bits {} k {}: {} insertions, {} bits deleted (expected {:.1}); {:?}", kind, bits, k, inserted, deleted, sub.iter().map(|t| t.1).sum::<f64>(), layout);
    for i in 0..k {
        for p in 0..bits {
            let t = cell[i][p];
            ensure!(!t.bad(), "bit {} of {} in sub-filter {} of {} is deleted {} times, expected {:.1}", p, bits, i, k, t.0, t.1);
        }
        ensure!(!sub[i].bad(), "sub-filter {} of {} loses {} bits, expected {:.1}", i, k, sub[i].0, sub[i].1);
    }
    for p in 0..bits {
        ensure!(!column[p].bad(), "bit {} of {} in all sub-filters is deleted {} times, expected {:.1}", p, bits, column[p].0, column[p].1);
    }
    // pairs of the same step share steps with other pairs: their variance is at most (k-1)/2 times larger
    let scale = |t: T| T(t.0, t.1, t.2 * (kf / 2.0).max(1.0));
    ensure!(!scale(pairs).bad(), "two sub-filters lose a bit at once {} times, expected {:.1}", pairs.0, pairs.1);
    ensure!(!scale(same).bad(), "two sub-filters lose the same bit at once {} times, expected {:.1}", same.0, same.1);
    ensure!(!next.bad(), "the bit after the previous deletion is deleted {} times, expected {:.1}", next.0, next.1);
    if deleted > 50 {
        c.nontrivial();
    }
    Ok(())
}

/// Large filters, and many sub-filters: the load of every region follows the expected one.
fn c20_regions(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = c.g.logu(200, 400_000);
    let kmax = (1_500_000 / bits).clamp(1, 30);
    let fpp = c.g.flog((0.5f64.powi(kmax as i32) * 2.0).max(1e-12), 0.9);
    let hb = good_pair(&mut c.g);
    let mut f = F::new(kind, bits, fpp, hb);
    let k = f.k();
    let Some(layout) = Layout::find(kind, 40, 0.1, hb) else {
        c.label("unobserved");
        return Ok(());
    };
    let mut rng = Sm::new(c.g.seed());
    let (b, kf) = (bits as f64, k as f64);
    let n = (c.g.unit(0.3, if bits < 20_000 { 5.0 } else { 2.5 }) * b) as usize;
    let mut p: f64 = 0.0;
    for _ in 0..n {
        f.insert(rng.next());
        let q = 1.0 - p.powf(kf);
        let rate = match kind {
            Kind::Bs => 1.0,
            Kind::Bssd => 1.0 / kf,
            Kind::Rlbs => p,
        };
        // an item whose position is clear is always inserted
        p += ((1.0 - p) - q * rate * p * (1.0 - 1.0 / b)) / b;
    }
    let Some(v) = layout.read(&f) else { fail!("the bits cannot be read") };
    tr!(c, "{:?} bits {} k {} stream of {}: ones {} of {}, expected load {:.4}", kind, bits, k, n, f.ones(), f.len(), p);
    let check = |ones: usize, cells: usize, what: &str, at: usize| -> R {
        let (o, m) = (ones as f64, cells as f64);
        let lim = SIGMA * (m * p * (1.0 - p)).sqrt() + 6.0 + 0.002 * m;
        ensure!((o - m * p).abs() <= lim, "{:?} with {} sub-filters of {} bits after {} items: {} of {} bits of {} {} are set, expected {:.1}", kind, k, bits, n, ones, cells, what, at, m * p);
        Ok(())
    };
    for (i, s) in v.iter().enumerate() {
        check(s.iter().filter(|x| **x).count(), bits, "sub-filter", i)?;
    }
    let regions = 16;
    for r in 0..regions {
        let (lo, hi) = (r * bits / regions, (r + 1) * bits / regions);
        check(v.iter().map(|s| s[lo..hi].iter().filter(|x| **x).count()).sum(), (hi - lo) * k, "region", r)?;
        for s in &v {
            check(s[lo..hi].iter().filter(|x| **x).count(), hi - lo, "one sub-filter, region", r)?;
        }
    }
    // positions by their low bits
    for m in 0..8 {
        check(v.iter().map(|s| s.iter().skip(m).step_by(8).filter(|x| **x).count()).sum(), (bits - m).div_ceil(8) * k, "positions modulo 8 =", m)?;
    }
    c.label_if(bits > 65536, "more than 65536 bits each");
    c.label_if(k > 8, "more than eight sub-filters");
    c.nontrivial();
    Ok(())
}

fn c20_retention(c: &mut Case) -> R {
    let kind = kind(c);
    let bits = c.g.logu(4, 120);
    let fpp = c.g.flog(1e-3, 0.9);
    let proto = F::new(kind, bits, fpp, [HB::Ident; 2]);
    let (b, k) = (bits as f64, proto.k() as f64);
    let age = c.g.us(1, bits.max(2));
    let warm = c.g.us(0, 4) * bits;
    let mut rng = Sm::new(c.g.seed());
    let use_sip = c.g.chance(1, 3);
    let reps = (1_500_000 / ((warm + age) * proto.k() + 50)).clamp(100, 4000);
    let (mut kept, mut want, mut var) = (0.0, 0.0, 0.0);
    for _ in 0..reps {
        let hb = if use_sip {
            [HB::Sip(sip(rng.next(), rng.next())), HB::Sip(sip(rng.next(), rng.next()))]
        } else {
            [HB::Mix(rng.next()), HB::Mix(rng.next())]
        };
        let mut f = F::new(kind, bits, fpp, hb);
        for _ in 0..warm {
            f.insert(rng.next());
        }
        let x = rng.next();
        f.insert(x);
        let mut keep = 1.0;
        for _ in 0..age {
            let y = rng.next();
            if !f.contains(y) {
                keep *= match kind {
                    Kind::Bs => (1.0 - 1.0 / b).powf(k),
                    Kind::Bssd => 1.0 - 1.0 / b,
                    Kind::Rlbs => (1.0 - f.ones() as f64 / (b * k) / b).powf(k) * (1.0 - 0.1 * k / (b * b)),
                };
            }
            f.insert(y);
        }
        kept += f.contains(x) as u8 as f64;
        want += keep;
        var += keep * (1.0 - keep);
    }
    let lim = want - SIGMA * var.sqrt() - SIGMA * SIGMA / 2.0;
    tr!(c, "{:?} bits {} k {} age {} after {} others: kept {} of {}, at least {:.1} expected", kind, bits, k, age, warm, kept, reps, want);
    ensure!(
        kept >= lim,
        "{:?} with {} sub-filters of {} bits: {} of {} items recognised after {} more, expected at least {:.1}", kind, k, bits, kept, reps, age, want
    );
    if lim > 0.0 {
        c.nontrivial();
    }
    c.label_if(lim > 0.5 * reps as f64, "more than half kept");
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "drift: over 5% of the stream was inserted; deletions: more than 50 bits deleted; retention: the lower limit is above zero; steady, regions: all",
        assumptions: &["hash builders are SipHash or a 64-bit mixer; limits are six standard deviations"],
        scenarios: vec![
            Scenario { name: "drift", cases: 2000, thorough: 40, f: c20_drift },
            Scenario { name: "steady", cases: 600, thorough: 30, f: c20_steady },
            Scenario { name: "regions", cases: 600, thorough: 40, f: c20_regions },
            Scenario { name: "deletions", cases: 400, thorough: 40, f: c20_deletions },
            Scenario { name: "retention", cases: 760, thorough: 40, f: c20_retention },
        ],
        known: vec![],
    }
}
