//! C01-C04: Bloom, partitioned Bloom and scalable Bloom filters.
use crate::coll::*;
use crate::keys::*;
use engine::*;
use probabilistic_collections::bloom::*;
use std::collections::{BTreeSet, HashMap, HashSet};

const FAM: [Kind; 3] = [Kind::Bloom, Kind::Partitioned, Kind::ScalableBloom];

// ---------------------------------------------------------------- C01

fn c01_history(c: &mut Case) -> R {
    let kind = c.g.of(&FAM);
    let scale = c.g.logu(1, 400);
    let p = gen_params(&mut c.g, kind, scale);
    let pn = c.g.us(1, 40);
    let keys = pool(&mut c.g, pn);
    tr!(c, "{:?} pool {:?}", p, &keys[..keys.len().min(6)]);
    let mut f = p.build();
    let mut live: BTreeSet<u64> = BTreeSet::new();
    let (mut inserts, mut clears, mut swaps) = (0, 0, 0);
    let start = f.counters();
    while c.g.more(60) {
        match c.g.weighted(&[20, 4, 1, 1, 1, 1]) {
            0 => {
                let k = *c.g.pick(&keys);
                f.apply(&Op::Insert(k));
                live.insert(k);
                inserts += 1;
                tr!(c, "insert {}", k);
            }
            1 => {
                let k = *c.g.pick(&keys);
                let a = f.answers(&[k])[0];
                ensure!(a == 1 || !live.contains(&k), "{:?} lost {}", kind, k);
                tr!(c, "contains {} -> {}", k, a);
            }
            2 => {
                f.apply(&Op::Clear);
                live.clear();
                clears += 1;
                tr!(c, "clear");
            }
            3 => {
                f = f.boxed();
                swaps += 1;
                tr!(c, "replace by clone");
            }
            4 => {
                // clone_from into an already used filter of other size
                let mut q = p.clone();
                q.a = c.g.us(1, 50);
                q.variant = if kind == Kind::Bloom { 2 } else { q.variant };
                let mut used = q.build();
                for k in &keys {
                    used.apply(&Op::Insert(*k));
                }
                f.clone_into_used(&mut *used);
                f = used;
                swaps += 1;
                tr!(c, "replace by clone_from into a used filter");
            }
            _ => {
                f = f.from_bin(&f.to_bin())?;
                swaps += 1;
                tr!(c, "replace by serde round trip");
            }
        }
        for k in &live {
            ensure!(f.answers(&[*k])[0] == 1, "{:?}: inserted item {} reported absent", kind, k);
        }
    }
    let end = f.counters();
    if inserts >= 3 && live.len() >= 2 {
        c.nontrivial();
    }
    c.label_if(kind == Kind::ScalableBloom && end[2] > 1, "grown");
    c.label_if(clears > 0, "cleared");
    c.label_if(swaps > 0, "clone/serde");
    c.label_if(start[0] % 8 != 0, "len not multiple of 8");
    Ok(())
}

fn c01_bulk(c: &mut Case) -> R {
    let kind = c.g.of(&FAM);
    let scale = c.g.logu(8, 3000);
    let p = gen_params(&mut c.g, kind, scale);
    let n = c.g.logu(8, 4000).min(if kind == Kind::ScalableBloom { 1500 } else { 4000 });
    let keys = pool(&mut c.g, n);
    let mut f = p.build();
    tr!(c, "{:?} bulk {} keys", p, n);
    let every = (n / c.g.us(1, 12)).max(1);
    for (i, k) in keys.iter().enumerate() {
        f.apply(&Op::Insert(*k));
        ensure!(f.answers(&[*k])[0] == 1, "{:?}: item {} absent right after insertion {}", kind, k, i);
        if i % every == 0 || i + 1 == n {
            for (j, x) in keys[..=i].iter().enumerate() {
                ensure!(f.answers(&[*x])[0] == 1, "{:?}: item #{} = {} absent after {} insertions", kind, j, x, i + 1);
            }
        }
        if kind == Kind::ScalableBloom && f.counters()[2] > 60 {
            break;
        }
    }
    if kind == Kind::ScalableBloom {
        let l = f.counters()[2];
        c.label_if(l >= 3, "3+ layers");
        c.label_if(l >= 8, "8+ layers");
    }
    c.nontrivial();
    Ok(())
}

fn c01_borrowed(c: &mut Case) -> R {
    // keys inserted through one borrowed form must be found through every other
    let hb = any_pair(&mut c.g);
    let bits = c.g.us(1, 4000);
    let fpp = c.g.flog(1e-6, 0.9);
    let mut b_s = BloomFilter::<String, HB>::from_fpp_with_hashers(bits, fpp, hb);
    let mut p_s = PartitionedBloomFilter::<String, HB>::from_bit_count_with_hashers(bits, fpp, hb);
    let mut s_s = ScalableBloomFilter::<String, HB>::with_hashers(bits, fpp, 2.0, 0.7, hb);
    let mut b_v = BloomFilter::<Vec<u8>, HB>::from_fpp_with_hashers(bits, fpp, hb);
    let mut p_v = PartitionedBloomFilter::<Vec<u8>, HB>::from_bit_count_with_hashers(bits, fpp, hb);
    let mut s_v = ScalableBloomFilter::<Vec<u8>, HB>::with_hashers(bits, fpp, 2.0, 0.7, hb);
    let mut b_x = BloomFilter::<Box<str>, HB>::from_fpp_with_hashers(bits, fpp, hb);
    let mut items: Vec<String> = Vec::new();
    while c.g.more(25) {
        let len = c.g.logu(1, 40) - 1;
        let s: String = (0..len).map(|_| c.g.of(&['a', 'b', '\0', 'z', 'é', '😀', ' '])).collect();
        let owned = c.g.chance(1, 2);
        tr!(c, "insert {:?} {}", s, if owned { "owned" } else { "borrowed" });
        let v = s.clone().into_bytes();
        if owned {
            b_s.insert(&s);
            p_s.insert(&s);
            s_s.insert(&s);
            b_v.insert(&v);
            p_v.insert(&v);
            s_v.insert(&v);
            b_x.insert(&s.clone().into_boxed_str());
        } else {
            b_s.insert(s.as_str());
            p_s.insert(s.as_str());
            s_s.insert(s.as_str());
            b_v.insert(v.as_slice());
            p_v.insert(v.as_slice());
            s_v.insert(v.as_slice());
            b_x.insert(s.as_str());
        }
        items.push(s);
        for s in &items {
            let v = s.as_bytes();
            let vo = v.to_vec();
            let ok = b_s.contains(s)
                && b_s.contains(s.as_str())
                && p_s.contains(s)
                && p_s.contains(s.as_str())
                && s_s.contains(s)
                && s_s.contains(s.as_str())
                && b_v.contains(v)
                && b_v.contains(&vo)
                && p_v.contains(v)
                && p_v.contains(&vo)
                && s_v.contains(v)
                && s_v.contains(&vo)
                && b_x.contains(s.as_str());
            ensure!(ok, "item {:?} lost through a borrowed form", s);
        }
    }
    if items.len() >= 3 {
        c.nontrivial();
    }
    Ok(())
}

fn c01_huge(c: &mut Case) -> R {
    // more than 2^32 bits; only a few pages are ever touched
    let hb = good_pair(&mut c.g);
    let bits = (1usize << 32) + c.g.us(1, 1 << 32);
    let which = c.g.idx(3);
    let fpp = c.g.flog(1e-9, 0.3);
    let n = c.g.us(500, 1500);
    let mut s = Sm::new(c.g.seed());
    let keys: Vec<u64> = (0..n).map(|_| s.next()).collect();
    tr!(c, "huge kind {} bits {} fpp {} n {}", which, bits, fpp, n);
    c.nontrivial();
    macro_rules! go {
        ($f:expr) => {{
            let mut f = $f;
            for k in &keys {
                f.insert(k);
            }
            for k in &keys {
                ensure!(f.contains(k), "huge filter lost {}", k);
            }
            // 2^32 bits and a few thousand set: a handful of overlaps at most, and no false positives
            let fp = (0..4000).filter(|_| f.contains(&s.next())).count();
            ensure!(fp == 0, "{} false positives out of 4000 in a nearly empty huge filter", fp);
            f
        }};
    }
    match which {
        0 => {
            let f = go!(BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, fpp, hb));
            ensure!(f.count_ones() > n * f.hasher_count() * 99 / 100, "too few bits set");
        }
        1 => {
            let k = (1.0 / fpp).log2().ceil() as usize;
            let f = go!(PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits / k + 1, fpp, hb));
            ensure!(f.count_ones() > n * f.hasher_count() * 99 / 100, "too few bits set");
        }
        _ => {
            let f = go!(ScalableBloomFilter::<u64, HB>::with_hashers(bits, fpp, 2.0, 0.5, hb));
            ensure!(f.filter_count() == 1, "unexpected growth");
        }
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "histories over random geometry, key pool and hash builders (identity, low-entropy, SipHash, mixing); \
               non-trivial: at least 3 insertions leaving at least 2 distinct live items (history), every bulk/huge case, \
               at least 3 items (borrowed); distinct by hash of the choice sequence",
        assumptions: &["degenerate zero-size filters (item count 0, bit count 0, fpp >= 1) are outside the domain"],
        scenarios: vec![
            Scenario { name: "history", cases: 100000, thorough: 20, f: c01_history },
            Scenario { name: "bulk", cases: 6000, thorough: 20, f: c01_bulk },
            Scenario { name: "borrowed", cases: 4000, thorough: 20, f: c01_borrowed },
            Scenario { name: "huge", cases: 72, thorough: 4, f: c01_huge },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C02

/// The two fixed-size filters behind one interface.
trait Fixed: Clone {
    fn ins(&mut self, k: u64);
    fn has(&self, k: u64) -> bool;
    fn ones(&self) -> usize;
    fn zeros(&self) -> usize;
    fn bits(&self) -> usize;
    fn k(&self) -> usize;
    fn est(&self) -> f64;
    fn wipe(&mut self);
    fn part(&self) -> Option<usize>;
    fn empty(&self) -> bool;
}
macro_rules! fixed {
    ($t:ty, $part:expr) => {
        impl Fixed for $t {
            fn ins(&mut self, k: u64) {
                self.insert(&k)
            }
            fn has(&self, k: u64) -> bool {
                self.contains(&k)
            }
            fn ones(&self) -> usize {
                self.count_ones()
            }
            fn zeros(&self) -> usize {
                self.count_zeros()
            }
            fn bits(&self) -> usize {
                self.len()
            }
            fn k(&self) -> usize {
                self.hasher_count()
            }
            fn est(&self) -> f64 {
                self.estimated_fpp()
            }
            fn wipe(&mut self) {
                self.clear()
            }
            fn part(&self) -> Option<usize> {
                let g: fn(&$t) -> Option<usize> = $part;
                g(self)
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
        }
    };
}
fixed!(BloomFilter<u64, HB>, |_| None);
fixed!(PartitionedBloomFilter<u64, HB>, |f| Some(f.bit_count()));

fn bookkeeping<F: Fixed>(f: &F, bits: usize, k: usize) -> R {
    ensure_eq!(f.bits(), bits, "len changed");
    ensure_eq!(f.k(), k, "hasher_count changed");
    ensure_eq!(f.empty(), bits == 0, "is_empty");
    ensure_eq!(f.ones() + f.zeros(), bits, "count_ones + count_zeros");
    if bits > 0 {
        let expect = (f.ones() as f64 / bits as f64).powi(k as i32);
        let got = f.est();
        ensure!((got - expect).abs() <= 1e-9 * expect + 1e-300, "estimated_fpp {} but (ones/len)^k = {}", got, expect);
    }
    if let Some(b) = f.part() {
        ensure_eq!(b * k, bits, "partition bits * hash count");
    }
    Ok(())
}

fn c02_fixed<F: Fixed>(c: &mut Case, fresh: F) -> R {
    let (bits, k) = (fresh.bits(), fresh.k());
    let nk = c.g.us(1, 14);
    let keys = pool(&mut c.g, nk);
    tr!(c, "bits {} k {} keys {:?}", bits, k, keys);
    let mut f = fresh.clone();
    bookkeeping(&f, bits, k)?;
    ensure_eq!(f.ones(), 0, "a new filter has set bits");
    let mut live: BTreeSet<u64> = BTreeSet::new();
    let mut fps = 0;
    while c.g.more(25) {
        match c.g.weighted(&[10, 5, 1]) {
            0 => {
                let x = *c.g.pick(&keys);
                let (had, before) = (f.has(x), f.ones());
                f.ins(x);
                let gain = f.ones() as i64 - before as i64;
                tr!(c, "insert {} (had {}, gain {})", x, had, gain);
                ensure!(gain >= 0, "insertion cleared bits");
                ensure!(gain as usize <= k, "insertion of {} set {} bits with {} hash functions", x, gain, k);
                ensure_eq!(had, gain == 0, "contains({}) before insertion vs. bits set by it ({})", x, gain);
                if before == 0 {
                    if f.part().is_some() {
                        ensure_eq!(gain as usize, k, "first insertion sets one bit per partition");
                    } else {
                        ensure!(gain >= 1, "first insertion set no bit");
                    }
                }
                fps += (had && !live.contains(&x)) as u32;
                live.insert(x);
            }
            1 => {
                let x = *c.g.pick(&keys);
                let before = f.ones();
                let a = f.has(x);
                tr!(c, "contains {} -> {}", x, a);
                ensure_eq!(f.ones(), before, "query changed the filter");
                // contains(x) exactly when inserting x would set no new bit
                let mut g = f.clone();
                g.ins(x);
                ensure_eq!(a, g.ones() == f.ones(), "contains({}) vs. new bits on insertion", x);
                ensure_eq!(f.ones(), before, "inserting into a clone changed the filter");
            }
            _ => {
                f.wipe();
                live.clear();
                tr!(c, "clear");
                ensure_eq!(f.ones(), 0, "set bits after clear");
            }
        }
        bookkeeping(&f, bits, k)?;
        // the state is that of a fresh filter given each live item once, in another order
        let mut h = fresh.clone();
        let mut order: Vec<u64> = live.iter().copied().collect();
        if c.g.chance(1, 2) {
            order.reverse();
        }
        for x in &order {
            h.ins(*x);
        }
        ensure_eq!(f.ones(), h.ones(), "set bits differ from a filter given the same set in another order");
        for x in &keys {
            ensure_eq!(f.has(*x), h.has(*x), "contains({}) differs from a filter given the same set in another order", x);
        }
    }
    if live.len() >= 3 && k >= 1 {
        c.nontrivial();
    }
    c.label_if(fps > 0, "false positive met");
    c.label_if(bits % 8 != 0, "len not multiple of 8");
    c.label_if(f.ones() == bits, "saturated");
    Ok(())
}

fn c02_relations(c: &mut Case) -> R {
    let kind = c.g.of(&[Kind::Bloom, Kind::Partitioned]);
    let scale = c.g.logu(1, 120);
    let p = gen_params(&mut c.g, kind, scale);
    tr!(c, "{:?}", p);
    c.label(if kind == Kind::Bloom { "bloom" } else { "partitioned" });
    if kind == Kind::Bloom {
        c02_fixed(c, p.bloom())
    } else {
        c02_fixed(c, p.partitioned())
    }
}

/// Hundreds of hash functions and nearly all bits set: every position decides.
fn c02_many_on<F: Fixed>(c: &mut Case, mut f: F) -> R {
    let (bits, k) = (f.bits(), f.k());
    tr!(c, "{} bits {} hash functions", bits, k);
    if k < 2 || bits > 60_000 {
        return Ok(());
    }
    // few holes, anywhere
    let holes = c.g.logu(1, 2 + bits / 40);
    let mut s = Sm::new(c.g.seed());
    for _ in 0..5000 {
        if bits - f.ones() <= holes {
            break;
        }
        f.ins(s.next());
    }
    let (mut yes, mut no) = (0, 0);
    for _ in 0..60 {
        let x = s.next();
        let mut g = f.clone();
        g.ins(x);
        ensure!(g.has(x), "{} absent after its insertion", x);
        let news = g.ones() - f.ones();
        ensure!(news <= k, "{} new bits", news);
        ensure_eq!(f.has(x), news == 0, "contains({}), whose insertion sets {} new bits ({} of {} set)", x, news, f.ones(), bits);
        if news == 0 {
            yes += 1;
        } else {
            no += 1;
        }
        if news <= 2 && news > 0 {
            c.label("one or two bits missing");
        }
    }
    c.label_if(k > 100, "more than 100 hash functions");
    if yes + no > 0 && f.ones() < bits {
        c.nontrivial();
    }
    Ok(())
}
fn c02_many(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let fpp = c.g.flog(1e-300, 1e-5);
    if c.g.chance(2, 3) {
        let m = c.g.us(2, 40);
        c02_many_on(c, PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(m, fpp, hb))
    } else {
        let n = c.g.us(1, 30);
        c02_many_on(c, BloomFilter::<u64, HB>::with_hashers(n, fpp, hb))
    }
}

fn c02_coverage_on<F: Fixed>(c: &mut Case, fresh: F) -> R {
    // With n items the numbers of set bits of all 2^n subsets determine, by inclusion-exclusion, how many
    // bits are shared by exactly each subset; all must be non-negative, and each item has at most k bits.
    let n = c.g.us(2, 5);
    let keys = pool(&mut c.g, n);
    let mut ones = vec![0i64; 1 << n];
    for (s, slot) in ones.iter_mut().enumerate() {
        let mut f = fresh.clone();
        for (i, k) in keys.iter().enumerate() {
            if s >> i & 1 == 1 {
                f.ins(*k);
            }
        }
        *slot = f.ones() as i64;
        for (i, k) in keys.iter().enumerate() {
            let mut g = f.clone();
            g.ins(*k);
            ensure_eq!(f.has(*k), g.ones() == f.ones(), "contains({}) in subset {:b}", i, s);
        }
    }
    let full = (1usize << n) - 1;
    // exact(T) = number of bits belonging to exactly the items in T
    //          = sum over U subset of T of (-1)^{|T|-|U|} * missing(complement of U) ... computed directly:
    // bits not covered by S: z(S) = total - ones(S) = sum of exact(T) over T disjoint from S.
    let total = ones[full];
    let z = |s: usize| total - ones[s];
    for t in 1..=full {
        // exact(T) = sum_{U subset T} (-1)^{|T \ U|} * z(complement(U)), z counts bits with owner set inside U
        let mut e = 0i64;
        let mut u = t;
        loop {
            let sign = if (t.count_ones() - u.count_ones()) % 2 == 0 { 1 } else { -1 };
            e += sign * z(full & !u);
            if u == 0 {
                break;
            }
            u = (u - 1) & t;
        }
        ensure!(e >= 0, "subset sizes {:?} are not those of a union of per-item bit sets", ones);
    }
    for (i, _) in keys.iter().enumerate() {
        ensure!(ones[1 << i] as usize <= fresh.k() && ones[1 << i] >= 1, "single item sets {} bits", ones[1 << i]);
    }
    if (0..n).any(|i| (0..n).any(|j| i != j && ones[1 << i | 1 << j] < ones[1 << i] + ones[1 << j])) {
        c.label("shared bits");
        c.nontrivial();
    }
    Ok(())
}
fn c02_coverage(c: &mut Case) -> R {
    let kind = c.g.of(&[Kind::Bloom, Kind::Partitioned]);
    let p = gen_params(&mut c.g, kind, 30);
    tr!(c, "{:?}", p);
    if kind == Kind::Bloom {
        c02_coverage_on(c, p.bloom())
    } else {
        c02_coverage_on(c, p.partitioned())
    }
}

/// Up to hundreds of hash functions: with well distributed hashes the number of set bits is the expected one.
fn c03_occupancy_on<F: Fixed>(c: &mut Case, fresh: F) -> R {
    let (m, k) = (fresh.bits() as f64, fresh.k() as f64);
    // the positions of one item are spread well only when they are few among the bits
    if m > 3e6 || k < 1.0 || (fresh.part().is_none() && m < 30.0 * k) {
        return Ok(());
    }
    let n = c.g.logu(1, (3.0 * m / k).clamp(1.0, 4000.0) as usize);
    let reps = (60_000 / (n * k as usize + 1)).clamp(1, 60);
    let mut s = Sm::new(c.g.seed());
    let mut total = 0.0;
    // the same builders, fresh random items: distinct bits of n * k uniform positions
    for _ in 0..reps {
        let mut f = fresh.clone();
        for _ in 0..n {
            f.ins(s.next());
        }
        total += f.ones() as f64;
        bookkeeping(&f, m as usize, k as usize)?;
    }
    let p = f64::from(fresh.part().unwrap_or(m as usize) as u32);
    let balls = n as f64 * if p == m { k } else { 1.0 };
    let parts = m / p;
    let full = -(balls * (-1.0 / p).ln_1p()).exp_m1();
    let want = reps as f64 * parts * p * full;
    // no more than the variance of independent bits; short hash sequences overlap within an item a little
    let sd = (reps as f64 * parts * p * full * (1.0 - full)).sqrt();
    let clump = if p == m { 0.06 * reps as f64 * n as f64 * k * (k / m).min(1.0) } else { 0.0 };
    tr!(c, "bits {} k {} n {} x{}: {} bits set, expected {:.1}", m, k, n, reps, total, want);
    ensure!((total - want).abs() <= 7.0 * sd + clump + 3.0, "{} bits set in {} filters of {} bits, {} hash functions and {} items; expected {:.1}", total, reps, m, k, n, want);
    c.label_if(k > 32.0, "more than 32 hash functions");
    c.label_if(k > 64.0, "more than 64 hash functions");
    c.nontrivial();
    Ok(())
}
fn c03_occupancy(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let fpp = 2f64.powf(-c.g.flog(1.0, 600.0));
    let bits = c.g.logu(2000, 400_000);
    match c.g.idx(4) {
        0 => c03_occupancy_on(c, BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, fpp, hb)),
        1 => {
            let n = (bits as f64 / c.g.flog(1.5, 600.0)).ceil() as usize;
            c03_occupancy_on(c, BloomFilter::<u64, HB>::from_item_count_with_hashers(bits, n, hb))
        }
        2 => c03_occupancy_on(c, BloomFilter::<u64, HB>::with_hashers(bits / 200, fpp, hb)),
        _ => c03_occupancy_on(c, PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits / 20, fpp, hb)),
    }
}

/// Beyond 2^32 bits: positions repeat as rarely as they should, so they reach the whole filter.
fn c03_huge(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let m = (1usize << 33) - c.g.us(0, 1 << 31);
    let fpp = 0.5f64.powi(c.g.of(&[1, 1, 2, 3, 6])) * 1.01;
    let mut s = Sm::new(c.g.seed());
    let mut run = |f: &mut dyn FnMut(u64), k: usize| -> usize {
        let n = 3_000_000 / k;
        (0..n).for_each(|_| f(s.next()));
        n * k
    };
    let (balls, ones, m) = if c.g.chance(1, 2) {
        let mut f = BloomFilter::<u64, HB>::from_fpp_with_hashers(m, fpp, hb);
        let k = f.hasher_count();
        (run(&mut |x| f.insert(&x), k), f.count_ones(), f.len())
    } else {
        let parts = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(64, fpp, hb).hasher_count();
        let mut f = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(m / parts, fpp, hb);
        let k = f.hasher_count();
        (run(&mut |x| f.insert(&x), k), f.count_ones(), f.len())
    };
    // positions that hit a set bit: Poisson
    let want = balls as f64 * balls as f64 / (2.0 * m as f64);
    let got = (balls - ones) as f64;
    tr!(c, "{} bits, {} positions, {} on a set bit, expected {:.1}", m, balls, got, want);
    ensure!((got - want).abs() <= 7.0 * want.sqrt() + 5.0, "{} of {} positions in a filter of {} bits hit a set bit, expected {:.1}", got, balls, m, want);
    c.nontrivial();
    Ok(())
}

fn c02_large(c: &mut Case) -> R {
    // order and multiplicity at realistic sizes
    let kind = c.g.of(&[Kind::Bloom, Kind::Partitioned]);
    let scale = c.g.logu(100, 3000);
    let p = gen_params(&mut c.g, kind, scale);
    let n = c.g.us(50, 2000);
    let keys = pool(&mut c.g, n);
    let mut s = Sm::new(c.g.seed());
    let (mut a, mut b) = (p.build(), p.build());
    for k in &keys {
        a.apply(&Op::Insert(*k));
    }
    let mut order = keys.clone();
    for _ in 0..n / 3 {
        order.push(keys[s.below(n as u64) as usize]);
    }
    s.shuffle(&mut order);
    for k in &order {
        b.apply(&Op::Insert(*k));
    }
    let probes: Vec<u64> = keys.iter().map(|k| k ^ 0x5555).chain((0..2000).map(|_| s.next())).collect();
    ensure_eq!(a.counters(), b.counters(), "{:?}: counters depend on order or repetition", kind);
    ensure!(a.answers(&probes) == b.answers(&probes), "{:?}: answers depend on order or repetition", kind);
    ensure!(a.to_bin() == b.to_bin(), "{:?}: serialized state depends on order or repetition", kind);
    c.nontrivial();
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "random histories of insert/contains/clear on Bloom and partitioned filters compared after every step with the same \
               set inserted in another order, all-subset inclusion-exclusion on 2-5 items, permuted/duplicated bulk streams; \
               non-trivial: at least 3 live items at the end (relations), two items sharing bits (coverage), a bit left unset (many), every large case",
        assumptions: &["zero-size filters are outside the domain"],
        scenarios: vec![
            Scenario { name: "relations", cases: 100000, thorough: 20, f: c02_relations },
            Scenario { name: "coverage", cases: 36000, thorough: 20, f: c02_coverage },
            Scenario { name: "large", cases: 3000, thorough: 20, f: c02_large },
            Scenario { name: "many", cases: 3000, thorough: 20, f: c02_many },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C03

fn theory(m: f64, k: f64, n: f64) -> f64 {
    (1.0 - (-k * n / m).exp()).powf(k)
}

/// Measures the false positive rate over `reps` filters filled with n items each, `per` queries each.
/// Returns (false positives, queries, mean of estimated_fpp).
fn measure<F: Fixed>(mk: &dyn Fn(&mut Sm) -> F, n: usize, reps: usize, per: usize, s: &mut Sm) -> Result<(f64, f64, f64), String> {
    let (mut fp, mut q, mut est) = (0usize, 0usize, 0.0);
    for _ in 0..reps {
        let mut f = mk(s);
        // members and non-members are told apart by the lowest bit
        for _ in 0..n {
            f.ins(s.next() | 1);
        }
        for _ in 0..per {
            fp += f.has(s.next() & !1) as usize;
        }
        q += per;
        est += f.est();
    }
    Ok((fp as f64, q as f64, est / reps as f64))
}

#[derive(Clone, Copy, Debug)]
enum Ctor {
    BloomNP,
    BloomMP,
    BloomMN,
    PartNP,
    PartMP,
}

fn c03_measure(c: &mut Case) -> R {
    let ctor = c.g.of(&[Ctor::BloomNP, Ctor::BloomMP, Ctor::BloomMN, Ctor::PartNP, Ctor::PartMP]);
    let p = c.g.flog(0.0005, 0.6);
    let ln2 = 2f64.ln();
    // double hashing within b bits adds about n/b^2 to the rate (two keys with equal residues of both
    // hashes); with n >= 2/p that stays below a quarter of p
    let n0 = c.g.logu(200, 6000).max((2.0 / p) as usize);
    let seed = c.g.seed();
    let sipk = c.g.chance(1, 2);
    let hb = move |s: &mut Sm| {
        if sipk {
            [HB::Sip(sip(s.next(), s.next())), HB::Sip(sip(s.next(), s.next()))]
        } else {
            [HB::Mix(s.next()), HB::Mix(s.next())]
        }
    };
    let mut s = Sm::new(seed);
    let h0 = hb(&mut s);
    // derived sizes and the probability the caller is entitled to
    let (m, k, n, goal): (usize, usize, usize, f64) = match ctor {
        Ctor::BloomNP => {
            let f = BloomFilter::<u64, HB>::with_hashers(n0, p, h0);
            (f.len(), f.hasher_count(), n0, p)
        }
        Ctor::BloomMP => {
            let bits = n0 * 10;
            let f = BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, p, h0);
            ensure_eq!(f.len(), bits, "bit budget");
            let n = (bits as f64 * ln2 * ln2 / -p.ln()).floor() as usize;
            (f.len(), f.hasher_count(), n, p)
        }
        Ctor::BloomMN => {
            let bits = (n0 as f64 * -p.ln() / (ln2 * ln2)).ceil() as usize;
            let f = BloomFilter::<u64, HB>::from_item_count_with_hashers(bits, n0, h0);
            ensure_eq!(f.len(), bits, "bit budget");
            (f.len(), f.hasher_count(), n0, (-(bits as f64) / n0 as f64 * ln2 * ln2).exp())
        }
        Ctor::PartNP => {
            let f = PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n0, p, h0);
            (f.len(), f.hasher_count(), n0, p)
        }
        Ctor::PartMP => {
            let bits = n0 * 10 / ((1.0 / p).log2().ceil() as usize).max(1) + 1;
            let f = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits, p, h0);
            ensure_eq!(f.bit_count(), bits, "bits per partition");
            let n = (f.len() as f64 * ln2 * ln2 / -p.ln()).floor() as usize;
            (f.len(), f.hasher_count(), n, p)
        }
    };
    if n < 60 {
        return Ok(());
    }
    let (mf, kf, nf) = (m as f64, k as f64, n as f64);
    let th = theory(mf, kf, nf);
    tr!(c, "{:?} p {:.5} n {} -> len {} hash count {} theoretical fpp {:.5}", ctor, p, n, m, k, th);
    // sizing: integer rounding of the hash count costs at most 13 %
    ensure!(
        th <= goal * 1.15 + 1e-12,
        "{:?}: sizing for fpp {} and {} items gives len {} and {} hash functions, i.e. fpp {}", ctor, goal, n, m, k, th
    );
    // measured rate
    let work = 2_000_000usize;
    let reps = (work / (n * (k + 2) * 4)).clamp(2, 24);
    let per = (work / (reps * 3)).clamp(2000, 200_000);
    let (fp, q, est) = match ctor {
        Ctor::BloomNP => measure(&|s| BloomFilter::<u64, HB>::with_hashers(n0, p, hb(s)), n, reps, per, &mut s)?,
        Ctor::BloomMP => measure(&|s| BloomFilter::<u64, HB>::from_fpp_with_hashers(m, p, hb(s)), n, reps, per, &mut s)?,
        Ctor::BloomMN => {
            measure(&|s| BloomFilter::<u64, HB>::from_item_count_with_hashers(m, n0, hb(s)), n, reps, per, &mut s)?
        }
        Ctor::PartNP => {
            measure(&|s| PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n0, p, hb(s)), n, reps, per, &mut s)?
        }
        Ctor::PartMP => {
            measure(&|s| PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(m / k, p, hb(s)), n, reps, per, &mut s)?
        }
    };
    // spread of the fill between filters, amplified by the k-th power
    let b = mf / kf;
    let km = nf / (b * b);
    if km > 0.3 * th {
        return Ok(());
    }
    let fill_sd = 0.6 * kf / mf.sqrt() / (reps as f64).sqrt();
    let hi = upper(q, (th * (1.0 + SIGMA * fill_sd + 0.06) + km).min(1.0));
    let lo = lower(q, (th * (1.0 - SIGMA * fill_sd - 0.06)).max(0.0));
    tr!(c, "measured {:.5} ({} of {}), estimated_fpp mean {:.5}, accepted {:.1}..{:.1}", fp / q, fp, q, est, lo, hi);
    ensure!(
        fp <= hi,
        "{:?} fpp {} n {} (len {}, k {}): measured false positive rate {:.5} exceeds {:.5}", ctor, goal, n, m, k, fp / q, hi / q
    );
    ensure!(
        fp >= lo,
        "{:?} fpp {} n {} (len {}, k {}): measured rate {:.5} is far below the theoretical {:.5}", ctor, goal, n, m, k, fp / q, th
    );
    // estimated_fpp predicts the measured rate of these very filters
    ensure!(
        fp <= upper(q, est * 1.08 + km) && fp >= lower(q, est * 0.92),
        "{:?} fpp {} n {}: estimated_fpp {:.5} but measured {:.5}", ctor, goal, n, est, fp / q
    );
    c.nontrivial();
    c.label(match ctor {
        Ctor::BloomNP => "bloom(n,p)",
        Ctor::BloomMP => "bloom(m,p)",
        Ctor::BloomMN => "bloom(m,n)",
        Ctor::PartNP => "partitioned(n,p)",
        Ctor::PartMP => "partitioned(m,p)",
    });
    c.label_if(hi / q <= goal * 1.6, "resolves 1.6x");
    Ok(())
}

/// Small filters: the rate may exceed theory because of double hashing, but by no more than double hashing with a
/// cubic term explains (a simulation on plain bit arrays).
fn c03_small(c: &mut Case) -> R {
    let part = c.g.chance(1, 2);
    let n = c.g.logu(6, 150);
    let p = c.g.flog(0.0001, 0.3);
    let mut s = Sm::new(c.g.seed());
    let mk = |s: &mut Sm| {
        let hb = [HB::Sip(sip(s.next(), s.next())), HB::Sip(sip(s.next(), s.next()))];
        (BloomFilter::<u64, HB>::with_hashers(n, p, hb), PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, p, hb))
    };
    let (b, pb) = mk(&mut s);
    let (m, k) = if part { (pb.len(), pb.hasher_count()) } else { (b.len(), b.hasher_count()) };
    let width = if part { m / k } else { m };
    tr!(c, "partitioned {} n {} p {} bits {} k {}", part, n, p, m, k);
    let reps = 150;
    let per = (4_000_000 / (reps * 4 * (3 + k))).clamp(200, 3000);
    // positions of an item with hashes a and b
    let pos = |a: u64, b: u64| {
        let (mut x, mut d) = (a, b);
        (0..k).map(move |i| {
            let r = (x % width as u64) as usize + if part { i * width } else { 0 };
            x = x.wrapping_add(d);
            d = d.wrapping_add(i as u64);
            r
        })
    };
    let (mut got, mut want) = (vec![], vec![]);
    for _ in 0..reps {
        let (mut b, mut pb) = mk(&mut s);
        for _ in 0..n {
            let x = s.next() | 1;
            if part {
                pb.insert(&x)
            } else {
                b.insert(&x)
            }
        }
        let fp = (0..per)
            .filter(|_| {
                let x = s.next() & !1;
                if part {
                    pb.contains(&x)
                } else {
                    b.contains(&x)
                }
            })
            .count();
        got.push(fp as f64 / per as f64);
    }
    for _ in 0..2 * reps {
        let mut bits = vec![false; m];
        for _ in 0..n {
            let (x, y) = (s.next(), s.next());
            pos(x, y).for_each(|i| bits[i] = true);
        }
        let fp = (0..per)
            .filter(|_| {
                let (x, y) = (s.next(), s.next());
                pos(x, y).all(|i| bits[i])
            })
            .count();
        want.push(fp as f64 / per as f64);
    }
    let stat = |v: &[f64]| {
        let n = v.len() as f64;
        let mean = v.iter().sum::<f64>() / n;
        // at least the spread of a count of one
        let var = v.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0);
        (mean, (var / n).sqrt() + 1.0 / (n * per as f64))
    };
    let ((g, gs), (w, ws)) = (stat(&got), stat(&want));
    tr!(c, "measured {:.6} (se {:.6}), reference {:.6} (se {:.6})", g, gs, w, ws);
    ensure!(
        g <= 1.2 * w + 6.0 * (gs + 1.2 * ws),
        "{} filter for {} items at fpp {} ({} bits, {} hashes): measured rate {:.6}, double hashing explains {:.6}",
        if part { "partitioned" } else { "Bloom" }, n, p, m, k, g, w
    );
    c.label_if(1.2 * w + 6.0 * (gs + 1.2 * ws) < 3.0 * w, "resolves 3x");
    c.nontrivial();
    Ok(())
}

fn c03_sizing(c: &mut Case) -> R {
    // the derived sizes meet the textbook probability for every argument, small and huge, exactly computed
    let ln2 = 2f64.ln();
    let extreme = c.g.chance(1, 6);
    let p = if extreme { c.g.flog(1e-280, 1e-12) } else { c.g.flog(1e-12, 0.97) };
    let n = c.g.logu(1, if extreme { 20_000 } else { 2_000_000 });
    let hb = good_pair(&mut c.g);
    let nf = n as f64;
    let ideal = nf * -p.ln() / (ln2 * ln2);
    tr!(c, "n {} p {}", n, p);
    let chk = |name: &str, m: usize, k: usize, n: f64, goal: f64| -> R {
        let th = theory(m as f64, k as f64, n);
        ensure!(k >= 1, "{}: no hash functions", name);
        ensure!(
            th <= goal * if goal < 1e-12 { 3.0 } else { 1.15 } + if goal < 1e-12 { 1e-300 } else { 1e-15 },
            "{}: n {} goal {} -> len {} hash count {}: theoretical fpp {} ", name, n, goal, m, k, th
        );
        Ok(())
    };
    let f = BloomFilter::<u64, HB>::with_hashers(n, p, hb);
    chk("BloomFilter(n,p)", f.len(), f.hasher_count(), nf, p)?;
    ensure!(f.len() as f64 <= ideal * 1.001 + 2.0, "BloomFilter(n,p) uses {} bits where {} suffice", f.len(), ideal);
    let kmax = |m: f64, n: f64| (m / n * ln2).ceil() + 1.0;
    ensure!(f.hasher_count() as f64 <= kmax(f.len() as f64, nf), "too many hash functions");
    let f = PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, p, hb);
    chk("PartitionedBloomFilter(n,p)", f.len(), f.hasher_count(), nf, p)?;
    ensure!(
        f.len() as f64 <= ideal * 1.001 + 1.0 + f.hasher_count() as f64,
        "PartitionedBloomFilter(n,p) uses {} bits where {} suffice", f.len(), ideal
    );
    ensure!(f.hasher_count() as f64 <= (1.0 / p).log2().ceil() + 1.0, "too many partitions");
    let bits = c.g.logu(1, 4_000_000);
    let f = BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, p, hb);
    ensure_eq!(f.len(), bits, "BloomFilter(m,p) bit budget");
    let cap = (bits as f64 * ln2 * ln2 / -p.ln()).floor();
    ensure!(f.hasher_count() >= 1, "BloomFilter(m,p): no hash functions");
    if cap >= 1.0 {
        chk("BloomFilter(m,p)", f.len(), f.hasher_count(), cap, p)?;
    }
    // at half-full bits (the fill scalable filters aim at) the probability is met as well
    ensure!(
        cap < 1.0 || 0.5f64.powf(f.hasher_count() as f64) <= p * (1.0 + 1e-9),
        "BloomFilter(m,p): bits {} p {} -> {} hash functions: half full gives {}", bits, p, f.hasher_count(),
        0.5f64.powf(f.hasher_count() as f64)
    );
    let f = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits.min(100_000), p, hb);
    ensure_eq!(f.bit_count(), bits.min(100_000), "PartitionedBloomFilter(m,p) bits per partition");
    ensure_eq!(f.len(), f.bit_count() * f.hasher_count(), "PartitionedBloomFilter(m,p) len");
    let cap = (f.len() as f64 * ln2 * ln2 / -p.ln()).floor();
    if cap >= 1.0 {
        chk("PartitionedBloomFilter(m,p)", f.len(), f.hasher_count(), cap, p)?;
    }
    // at most 60 bits per item, so that the hash count stays meaningful; at the extreme up to 1300 (a probability of 1e-270)
    let items = if extreme { c.g.logu(bits / 1300 + 1, bits) } else { c.g.us((bits / 60).max(1), bits.max(1)) };
    let f = BloomFilter::<u64, HB>::from_item_count_with_hashers(bits, items, hb);
    ensure_eq!(f.len(), bits, "BloomFilter(m,n) bit budget");
    chk(
        "BloomFilter(m,n)", f.len(), f.hasher_count(), items as f64,
        ((-(bits as f64) / items as f64 * ln2 * ln2).exp()).max(f64::MIN_POSITIVE),
    )?;
    c.nontrivial();
    c.label_if(n < 10, "n < 10");
    c.label_if(extreme, "p below 1e-12");
    c.label_if(p > 0.5, "p > 0.5");
    Ok(())
}

/// 22 items at 1e-6 give partitions of 32 bits; see the pairwise term of the measured scenario.
fn c03_pairwise() -> R {
    let mut rng = Sm::new(3);
    let (mut fp, mut q) = (0.0, 0.0);
    for _ in 0..400 {
        let hb = [HB::Sip(sip(rng.next(), rng.next())), HB::Sip(sip(rng.next(), rng.next()))];
        let mut f = PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(22, 1e-6, hb);
        (0..22u64).for_each(|i| f.insert(&i));
        fp += (1000..1200u64).filter(|i| f.contains(i)).count() as f64;
        q += 200.0;
    }
    ensure!(fp <= upper(q, 1e-6), "{} of {} never-inserted items reported present", fp, q);
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "random (n,p)/(bits,p)/(bits,n) with random seeds: derived sizes against the textbook probability (sizing), and filters \
               filled to their design load queried with non-members (measured), acceptance at 6 sigma around theory; filters for 6 to 150 \
               items against a simulation of double hashing on bit arrays (small); set bits against \
               the expected fill with up to 600 hash functions (occupancy) and in filters of about 2^33 bits (huge); \
               non-trivial: every sizing and small case, every measured case with at least 60 items",
        assumptions: &[
            "rounding the hash count up costs at most 15 % over the requested probability (13 % worst case analytically)",
            "key sets are pseudo-random; SipHash and a mixing hash stand for well-distributed builders",
            "measured rates may exceed theory by the pairwise collision probability of double hashing (items / (bits per hash)^2), which is the listed finding",
        ],
        scenarios: vec![
            Scenario { name: "occupancy", cases: 18000, thorough: 20, f: c03_occupancy },
            Scenario { name: "huge", cases: 12, thorough: 4, f: c03_huge },
            Scenario { name: "measured", cases: 510, thorough: 12, f: c03_measure },
            Scenario { name: "small", cases: 600, thorough: 12, f: c03_small },
            Scenario { name: "sizing", cases: 18000, thorough: 20, f: c03_sizing },
        ],
        known: vec![KnownProbe {
            sig: "double-hashing-pairs",
            what: "partitioned filter for 22 items at fpp 1e-6 (20 partitions of 32 bits): about 2% false positives, because with double hashing two items share all positions with probability 1/32^2",
            f: c03_pairwise,
        }],
    }
}

// ---------------------------------------------------------------- C04

/// `got` is `want` rounded up; either neighbour will do when `want` is within rounding errors of an integer.
fn rounded_up(got: usize, want: f64) -> bool {
    let eps = want * 1e-9;
    got as f64 >= (want - eps).ceil() && got as f64 <= (want + eps).ceil()
}

fn c04_schedule(c: &mut Case) -> R {
    let bits = c.g.logu(1, 2000);
    let fpp = c.g.flog(1e-6, 0.9);
    let growth = match c.g.weighted(&[3, 1, 1]) {
        0 => c.g.unit(1.0, 4.0),
        1 => 2.0,
        _ => 1.0,
    };
    let tight = match c.g.weighted(&[3, 1, 1]) {
        0 => c.g.unit(0.1, 1.0),
        1 => 0.5,
        _ => 1.0,
    };
    let hb = if c.g.chance(1, 3) { any_pair(&mut c.g) } else { good_pair(&mut c.g) };
    let n = c.g.us(1, 500);
    let keys = pool(&mut c.g, n);
    let dup = c.g.chance(1, 3);
    tr!(c, "bits {} fpp {} growth {} tight {} {:?} {} keys", bits, fpp, growth, tight, hb, n);
    let mut f = ScalableBloomFilter::<u64, HB>::with_hashers(bits, fpp, growth, tight, hb);
    // reference: the sequence of public Bloom filters the documentation describes
    let mut layers = vec![BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, fpp, hb)];
    ensure_eq!(f.filter_count(), 1, "initial layers");
    ensure_eq!(f.len(), bits, "initial len");
    let mut sm = Sm::new(c.g.seed());
    let mut grew = 0;
    let mut covered = 0;
    let mut i = 0;
    while i < n {
        let k = if dup && i > 0 && sm.below(3) == 0 { keys[sm.below(i as u64) as usize] } else { keys[i] };
        i += 1;
        let present = layers.iter().any(|l| l.contains(&k));
        ensure_eq!(f.contains(&k), present, "contains({}) before its insertion vs. the layer sequence", k);
        if !present {
            layers.last_mut().unwrap().insert(&k);
        } else {
            covered += 1;
        }
        f.insert(&k);
        let last = layers.last().unwrap();
        let should_grow = last.count_ones() * 2 >= last.len();
        if should_grow {
            let prev: usize = layers.iter().map(|l| l.len()).sum();
            ensure_eq!(
                f.filter_count(), layers.len() + 1,
                "newest layer has {} of {} bits set after insertion {}: layers", last.count_ones(), last.len(), i
            );
            let new_len = f.len() - prev;
            let want = last.len() as f64 * growth;
            ensure!(
                rounded_up(new_len, want) && new_len > 0,
                "new layer has {} bits, previous {} times growth {}", new_len, last.len(), growth
            );
            let target = fpp * tight.powi(layers.len() as i32);
            let mk = |p: f64| BloomFilter::<u64, HB>::from_fpp_with_hashers(new_len, p, hb);
            if mk(target * (1.0 - 1e-9)).hasher_count() != mk(target * (1.0 + 1e-9)).hasher_count() {
                c.label("stopped at a rounding boundary");
                break;
            }
            layers.push(mk(target));
            grew += 1;
            if layers.len() > 50 {
                break;
            }
        } else {
            ensure_eq!(
                f.filter_count(), layers.len(),
                "newest layer has {} of {} bits set after insertion {}: layers", last.count_ones(), last.len(), i
            );
        }
        let (ones, len): (usize, usize) = layers.iter().fold((0, 0), |a, l| (a.0 + l.count_ones(), a.1 + l.len()));
        ensure_eq!(f.count_ones(), ones, "count_ones after insertion {} of {}", i, k);
        ensure_eq!(f.len(), len, "len after insertion {}", i);
        ensure_eq!(f.count_zeros(), len - ones, "count_zeros after insertion {}", i);
        if i % 16 == 0 || should_grow {
            let est = 1.0 - layers.iter().map(|l| 1.0 - l.estimated_fpp()).product::<f64>();
            ensure!((f.estimated_fpp() - est).abs() <= 1e-9, "estimated_fpp {} vs {}", f.estimated_fpp(), est);
            for _ in 0..8 {
                let probe = if sm.below(2) == 0 { sm.next() } else { sm.below(2000) };
                ensure_eq!(f.contains(&probe), layers.iter().any(|l| l.contains(&probe)), "contains({})", probe);
            }
        }
        if c.g.chance(1, 200) {
            f.clear();
            layers = vec![BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, fpp, hb)];
            c.label("cleared");
        }
    }
    if grew >= 1 {
        c.nontrivial();
    }
    c.label_if(grew >= 1, "grew");
    c.label_if(grew >= 4, "grew 4+");
    c.label_if(covered > 0, "insert of present item");
    Ok(())
}

/// Layers of tens of thousands to millions of bits; the layer sequence is compared at each growth and at the end.
fn c04_large(c: &mut Case) -> R {
    let bits = c.g.logu(500, 300_000);
    let fpp = c.g.flog(1e-4, 0.5);
    let growth = if c.g.chance(1, 3) { c.g.flog(4.0, 40.0) } else { c.g.unit(1.0, 4.0) };
    let tight = c.g.unit(0.1, 1.0);
    let hb = good_pair(&mut c.g);
    let budget = c.g.us(20_000, 150_000);
    let mut s = Sm::new(c.g.seed());
    tr!(c, "bits {} fpp {:.5} growth {:.2} tight {:.2} {:?} {} keys", bits, fpp, growth, tight, hb, budget);
    let mk = |bits: usize, fpp: f64| BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, fpp, hb);
    let mut f = ScalableBloomFilter::<u64, HB>::with_hashers(bits, fpp, growth, tight, hb);
    let mut layers = vec![mk(bits, fpp)];
    let mut grew = 0;
    for i in 0..budget {
        let k = s.next();
        let present = layers.iter().any(|l| l.contains(&k));
        if !present {
            layers.last_mut().unwrap().insert(&k);
        }
        f.insert(&k);
        if f.filter_count() == layers.len() {
            continue;
        }
        ensure_eq!(f.filter_count(), layers.len() + 1, "layers after insertion {}", i);
        let last = layers.last().unwrap();
        let (ones, hashes) = (last.count_ones(), last.hasher_count());
        ensure!(ones * 2 >= last.len(), "grew with {} of {} bits of the newest layer set", ones, last.len());
        ensure!(ones.saturating_sub(hashes) * 2 < last.len(), "grew only with {} of {} bits of the newest layer set", ones, last.len());
        let new_len = f.len() - layers.iter().map(|l| l.len()).sum::<usize>();
        let want = last.len() as f64 * growth;
        ensure!(rounded_up(new_len, want) && new_len > 0, "new layer has {} bits, previous {} times growth {}", new_len, last.len(), growth);
        let target = fpp * tight.powi(layers.len() as i32);
        grew += 1;
        c.label_if(new_len > 1 << 16, "layer of more than 2^16 bits");
        c.label_if(new_len > 1 << 20, "layer of more than 2^20 bits");
        if mk(64, target * (1.0 - 1e-9)).hasher_count() != mk(64, target * (1.0 + 1e-9)).hasher_count() || new_len > 1 << 26 || layers.len() > 30 {
            c.label("stopped early");
            return Ok(());
        }
        layers.push(mk(new_len, target));
    }
    let last = layers.last().unwrap();
    ensure!(last.count_ones() * 2 < last.len(), "{} of {} bits of the newest layer set, and no new one", last.count_ones(), last.len());
    let (ones, len): (usize, usize) = layers.iter().fold((0, 0), |a, l| (a.0 + l.count_ones(), a.1 + l.len()));
    ensure_eq!((f.count_ones(), f.len(), f.count_zeros()), (ones, len, len - ones), "ones, length and zeros in the end");
    let est = 1.0 - layers.iter().map(|l| 1.0 - l.estimated_fpp()).product::<f64>();
    ensure!((f.estimated_fpp() - est).abs() <= 1e-9, "estimated_fpp {} vs {}", f.estimated_fpp(), est);
    for _ in 0..3000 {
        let probe = s.next();
        ensure_eq!(f.contains(&probe), layers.iter().any(|l| l.contains(&probe)), "contains({})", probe);
    }
    c.label_if(grew >= 1, "grew");
    c.label_if(grew >= 4, "grew 4+");
    if grew >= 1 {
        c.nontrivial();
    }
    Ok(())
}

fn c04_bound(c: &mut Case) -> R {
    let bits = c.g.us(4096, 20000);
    let fpp = c.g.flog(0.004, 0.25);
    let growth = c.g.unit(1.0, 3.0);
    let tight = c.g.unit(0.2, 0.92);
    let hb = good_pair(&mut c.g);
    let n = c.g.logu(2000, 40000);
    let mut s = Sm::new(c.g.seed());
    let mut f = ScalableBloomFilter::<u64, HB>::with_hashers(bits, fpp, growth, tight, hb);
    for _ in 0..n {
        f.insert(&(s.next() | 1));
        if f.filter_count() > 12 {
            break;
        }
    }
    let l = f.filter_count();
    let q = 30000;
    let fp = (0..q).filter(|_| f.contains(&(s.next() & !1))).count() as f64;
    // union of the layers' targets, which is below fpp / (1 - tightening)
    let union = 1.0 - (0..l).map(|i| 1.0 - (fpp * tight.powi(i as i32)).min(1.0)).product::<f64>();
    let compound = fpp / (1.0 - tight);
    let hi = upper(q as f64, (union * 1.12).min(compound * 1.12).min(1.0));
    tr!(c, "bits {} fpp {:.4} growth {:.2} tight {:.2} n {} layers {} union {:.4} compound {:.4} measured {:.4}", bits, fpp, growth, tight, n, l, union, compound, fp / q as f64);
    ensure!(
        fp <= hi,
        "scalable filter (bits {} fpp {} growth {} tightening {}) with {} layers: measured {:.4} exceeds {:.4}",
        bits, fpp, growth, tight, l, fp / q as f64, hi / q as f64
    );
    let est = f.estimated_fpp();
    ensure!(
        fp <= upper(q as f64, est * 1.08) && fp >= lower(q as f64, est * 0.92),
        "estimated_fpp {:.4} but measured {:.4}", est, fp / q as f64
    );
    c.label_if(l >= 2, "2+ layers");
    c.label_if(l >= 5, "5+ layers");
    if l >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c04() -> Prop {
    let _: Option<(HashMap<u8, u8>, HashSet<u8>)> = None;
    Prop {
        id: "C04",
        rule: "random parameters and insertion streams with repeats, compared after every insertion with the documented sequence of \
               public Bloom filters (schedule; large: layers of millions of bits), and compound false positive rate measured after many growths (bound); \
               non-trivial: at least one growth happened",
        assumptions: &["cases stop where a layer's hash count is within 1e-9 of a rounding boundary"],
        scenarios: vec![
            Scenario { name: "schedule", cases: 36000, thorough: 20, f: c04_schedule },
            Scenario { name: "large", cases: 320, thorough: 20, f: c04_large },
            Scenario { name: "bound", cases: 1000, thorough: 12, f: c04_bound },
        ],
        known: vec![],
    }
}
