//! C33-C35: equality, queries that change nothing, and placement by the hash builders.
use crate::coll::*;
use crate::keys::*;
use engine::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::*;
use std::hash::{BuildHasher, Hash, Hasher};
use std::collections::{BTreeSet, HashMap};
use std::marker::PhantomData;
use std::vec::IntoIter;

// ---------------------------------------------------------------------------------------------------- C33

/// The same pair, or one that differs in a single bit of a single key, or has its halves exchanged.
fn near_pair(g: &mut Gen, seeds: [(u64, u64); 2]) -> [(u64, u64); 2] {
    let mut s = seeds;
    match g.weighted(&[4, 3, 1, 1]) {
        0 => {}
        1 => {
            let bit = 1u64 << g.below(64);
            match g.idx(4) {
                0 => s[0].0 ^= bit,
                1 => s[0].1 ^= bit,
                2 => s[1].0 ^= bit,
                _ => s[1].1 ^= bit,
            }
        }
        2 => s.swap(0, 1),
        _ => s[g.idx(2)] = (g.u64(), g.u64()),
    }
    s
}
fn some_keys(g: &mut Gen, pool: &[u64], base: Option<&[u64]>) -> Vec<u64> {
    let mut v: Vec<u64> = match base {
        Some(b) if g.chance(3, 4) => b.to_vec(),
        _ => {
            let n = g.us(0, pool.len() * 2);
            (0..n).map(|_| *g.pick(pool)).collect()
        }
    };
    // a few changes, then another order
    for _ in 0..g.weighted(&[3, 2, 1]) {
        if g.chance(1, 2) && !v.is_empty() {
            let i = g.idx(v.len());
            v.remove(i);
        } else {
            v.push(*g.pick(pool));
        }
    }
    if g.chance(1, 2) {
        Sm::new(g.seed()).shuffle(&mut v);
    }
    v
}

/// Two Bloom filters, equal or nearly so.
fn c33_bloom(c: &mut Case) -> R {
    let n = c.g.us(1, 30);
    let keys = pool(&mut c.g, n);
    let seeds = [(c.g.u64(), c.g.u64()), (c.g.u64(), c.g.u64())];
    let mut seeds2 = near_pair(&mut c.g, seeds);
    let mut x = some_keys(&mut c.g, &keys, None);
    let mut y = some_keys(&mut c.g, &keys, Some(&x));
    let (mut bits, mut items) = (c.g.us(1, 300), c.g.us(1, 40));
    // much room: few of many bits differ, often as many ones on both sides
    let large = c.g.chance(1, 6);
    if large {
        bits = c.g.logu(300, 400_000);
        items = (bits / c.g.us(1, 8)).max(1);
        seeds2 = seeds;
        x = (0..c.g.us(1, 12)).map(|_| *c.g.pick(&keys)).collect();
        y = x.clone();
        let i = c.g.idx(y.len());
        y[i] = *c.g.pick(&keys);
    }
    let (bits2, items2) = match c.g.weighted(if large { &[9, 1, 0, 0] } else { &[4, 1, 1, 1] }) {
        0 => (bits, items),
        1 => (bits + c.g.us(1, 9), items),
        2 => (bits, items + c.g.us(1, 20)),
        _ => (c.g.us(1, 300), c.g.us(1, 40)),
    };
    let mk = |bits, items, s: [(u64, u64); 2], v: &[u64]| {
        let mut f = BloomFilter::<u64>::from_item_count_with_hashers(bits, items, [sip(s[0].0, s[0].1), sip(s[1].0, s[1].1)]);
        v.iter().for_each(|k| f.insert(k));
        f
    };
    let (f, g) = (mk(bits, items, seeds, &x), mk(bits2, items2, seeds2, &y));
    tr!(c, "{} bits, {} hashes, X {:?}; {} bits, {} hashes, Y {:?}; same builders {}", f.len(), f.hasher_count(), x, g.len(), g.hasher_count(), y, seeds == seeds2);
    #[allow(clippy::eq_op)]
    {
        ensure!(f == f && !(f != f) && f == f.clone(), "not equal to itself or a clone");
    }
    ensure!((f == g) == (g == f) && (f != g) == !(f == g), "== and != disagree");
    let alike = f.len() == g.len() && f.hasher_count() == g.hasher_count() && seeds == seeds2;
    // same bits: the union has no more ones than either
    let want = alike && {
        let mut u = f.clone();
        y.iter().for_each(|k| u.insert(k));
        u.count_ones() == f.count_ones() && u.count_ones() == g.count_ones()
    };
    ensure_eq!(f == g, want, "Bloom filters compared (alike in parameters: {})", alike);
    // equality follows the contents through later steps
    if want {
        let (mut f, mut g) = (f.clone(), g.clone());
        for k in keys.iter().take(6) {
            f.insert(k);
            ensure_eq!(f == g, g.contains(k), "after inserting {} into one of two equal filters", k);
            g.insert(k);
            ensure!(f == g, "after inserting {} into both", k);
        }
    }
    let mut d = f.clone();
    d.clear();
    ensure!(d == mk(bits, items, seeds, &[]), "a cleared filter does not equal a new one");
    let r: BloomFilter<u64> = bincode::deserialize(&bincode::serialize(&f).unwrap()).map_err(|e| e.to_string())?;
    ensure!(r == f, "a restored filter does not equal the original");
    let (p, q) = (sip(seeds[0].0, seeds[0].1), sip(seeds2[0].0, seeds2[0].1));
    ensure_eq!(p == q, seeds[0] == seeds2[0], "builders compared");
    c.label_if(want, "equal filters");
    c.label_if(alike && !want, "differ in contents only");
    c.label_if(alike && !want && bits > 20_000 && f.count_ones() == g.count_ones(), "large, as many ones, other contents");
    c.label_if(!alike && seeds == seeds2, "differ in parameters");
    c.label_if(seeds != seeds2, "differ in builders");
    if !x.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn c33_cuckoo(c: &mut Case) -> R {
    let n = c.g.us(1, 30);
    let keys = pool(&mut c.g, n);
    let seeds = [(c.g.u64(), c.g.u64()), (c.g.u64(), c.g.u64())];
    let mut seeds2 = near_pair(&mut c.g, seeds);
    let mut x = some_keys(&mut c.g, &keys, None);
    let mut y = some_keys(&mut c.g, &keys, Some(&x));
    let mut a = (c.g.us(1, 24), c.g.us(4, 40), c.g.us(1, 5));
    // next to no room: what differs is often in the overflow list only
    let tiny = c.g.chance(1, 3) && n > 3;
    if tiny {
        a = (c.g.us(1, 3), c.g.us(4, 40), c.g.us(1, 2));
        seeds2 = seeds;
        x = (0..c.g.us(1, 5)).map(|_| *c.g.pick(&keys)).collect();
        y = x.clone();
        let i = c.g.idx(y.len());
        y[i] = *c.g.pick(&keys);
    }
    let large = !tiny && c.g.chance(1, 6);
    if large {
        a.0 = c.g.logu(300, 50_000);
        seeds2 = seeds;
        x = (0..c.g.us(1, 12)).map(|_| *c.g.pick(&keys)).collect();
        y = x.clone();
        let i = c.g.idx(y.len());
        y[i] = *c.g.pick(&keys);
    }
    let ent = if c.g.chance(1, 2) { Some(c.g.seed()) } else { None };
    let mut b = a;
    match c.g.weighted(if tiny { &[1, 0, 0, 0] } else { &[5, 1, 1, 1] }) {
        0 => {}
        1 => b.0 = c.g.us(1, 24),
        2 => b.1 = c.g.us(4, 40),
        _ => b.2 = c.g.us(1, 5),
    }
    let mk = |p: (usize, usize, usize), s: [(u64, u64); 2], v: &[u64]| {
        // often with equal random choices
        if let Some(e) = ent {
            getrandom::det_seed(e);
        }
        let mut f = CuckooFilter::<u64>::from_parameters_with_hashers(p.0, p.1, p.2, [sip(s[0].0, s[0].1), sip(s[1].0, s[1].1)]);
        v.iter().for_each(|k| f.insert(k));
        f
    };
    let (f, g) = (mk(a, seeds, &x), mk(b, seeds2, &y));
    tr!(c, "{:?} X {:?} with {} overflow entries; {:?} Y {:?} with {}; same builders {}", a, x, f.extra_items_len(), b, y, g.extra_items_len(), seeds == seeds2);
    #[allow(clippy::eq_op)]
    {
        ensure!(f == f && !(f != f) && f == f.clone(), "not equal to itself or a clone");
    }
    ensure!((f == g) == (g == f) && (f != g) == !(f == g), "== and != disagree");
    let geometry = |f: &CuckooFilter<u64>| (f.capacity(), f.bucket_len(), f.entries_per_index(), f.fingerprint_bit_count());
    let alike = geometry(&f) == geometry(&g) && seeds == seeds2;
    // where entries lie is up to the filter, but different contents are never equal
    let known = |f: &CuckooFilter<u64>| keys.iter().map(|k| f.contains(k)).collect::<Vec<_>>();
    let differ = known(&f) != known(&g) || (f.len(), f.extra_items_len()) != (g.len(), g.extra_items_len());
    ensure!(!(f == g && !alike), "cuckoo filters of other parameters are equal");
    ensure!(!(f == g && differ), "cuckoo filters of different contents are equal");
    if alike && !differ && f.len() <= 1 && f.extra_items_len() == 0 && x.first() == y.first() {
        ensure!(f == g, "cuckoo filters with the same only entry differ");
    }
    let r: CuckooFilter<u64> = bincode::deserialize(&bincode::serialize(&f).unwrap()).map_err(|e| e.to_string())?;
    ensure!(r == f && f == r, "a restored filter does not equal the original");
    // clones under equal and unequal steps
    let (mut p, mut q) = (f.clone(), f.clone());
    for k in keys.iter().take(8) {
        let had = p.contains(k);
        if c.g.chance(1, 3) {
            p.remove(k);
            ensure_eq!(p == q, !had, "after removing {} from one of two equal filters", k);
            q.remove(k);
        } else {
            p.insert(k);
            ensure_eq!(p == q, had, "after inserting {} into one of two equal filters", k);
            q.insert(k);
        }
        ensure!(p == q, "clones differ after equal steps, the last with {}", k);
    }
    p.clear();
    ensure!(p == mk(a, seeds, &[]), "a cleared filter does not equal a new one");
    c.label_if(f == g, "equal filters");
    c.label_if(alike && differ, "differ in contents only");
    c.label_if(alike && differ && f.capacity() > 5000 && f.len() == g.len(), "large, same counts, other contents");
    c.label_if(f.len() == g.len() && f.extra_items_len() > 0 && differ && alike, "overflow, same counts, other contents");
    c.label_if(!alike && seeds == seeds2, "differ in parameters");
    c.label_if(seeds != seeds2, "differ in builders");
    if !x.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "the first of the two compared filters is not empty",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "bloom", cases: 103000, thorough: 40, f: c33_bloom },
            Scenario { name: "cuckoo", cases: 90000, thorough: 40, f: c33_cuckoo },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C34

/// Everything that only looks at a collection.
fn look(g: &mut Sm, x: &mut dyn Coll, probes: &[u64]) {
    for _ in 0..1 + g.below(3) {
        match g.below(7) {
            6 => drop(x.debug()),
            0 => drop(x.to_bin()),
            1 => drop(x.to_json()),
            2 => drop(x.boxed()),
            3 => drop(x.counters()),
            4 => drop(x.hashers()),
            _ => drop(x.answers(probes)),
        }
    }
}

/// The same history with and without queries between the steps.
fn c34_queries(c: &mut Case) -> R {
    let kind = KINDS[c.g.idx(KINDS.len())];
    c.label(crate::props::general::kind_name(kind));
    let scale = match c.g.weighted(&[3, 3, 1]) {
        0 => c.g.us(1, 12),
        1 => c.g.us(1, 80),
        _ => c.g.us(50, 1000),
    };
    let p = gen_params(&mut c.g, kind, scale);
    let n = c.g.us(1, 60);
    let mut keys = pool(&mut c.g, n);
    let mut probes = keys.clone();
    let bulk = Sm::new(c.g.seed());
    let mut s = bulk.clone();
    probes.extend((0..60).map(|_| s.next()));
    if c.g.chance(1, 2) {
        keys.extend((0..60).map(|_| s.next()));
    }
    let fill = if c.g.chance(1, 2) { c.g.us(0, scale + scale / 2) } else { 0 };
    let steps = c.g.us(1, 50);
    let ops: Vec<Op> = (0..steps).map(|_| gen_op(&mut c.g, &p, &keys, 1)).collect();
    tr!(c, "{:?}: {} random items, then {:?}", p, fill, ops);
    let (ent, look_seed) = (c.g.seed(), c.g.seed());
    let mut grown = 0;
    let mut run = |looking: bool| {
        // equal random choices in both runs
        getrandom::det_seed(ent);
        let mut x = p.build();
        let mut r = bulk.clone();
        let mut l = Sm::new(look_seed);
        let mut states = vec![];
        let step = |x: &mut Box<dyn Coll>, op: &Op, l: &mut Sm| {
            // badly distributed hashes make the layers grow exponentially
            if p.is_scalable() && x.counters()[0].max(x.counters()[2]) > 200_000 && matches!(op, Op::Insert(_)) {
                return;
            }
            x.apply(op);
            if looking {
                look(l, x.as_mut(), &probes);
            }
        };
        for _ in 0..fill {
            step(&mut x, &Op::Insert(r.next()), &mut l);
        }
        states.push(x.to_bin());
        for (i, op) in ops.iter().enumerate() {
            step(&mut x, op, &mut l);
            if i % 4 == 0 {
                states.push(x.to_bin());
            }
        }
        let calls = getrandom::det_calls();
        grown = grown.max(calls);
        states.push(x.to_bin());
        (states, x.answers(&probes), x.counters())
    };
    let a = run(false);
    let b = run(true);
    for (i, (s, t)) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(s == t, "looking at the {} changed its state by checkpoint {}", crate::props::general::kind_name(kind), i);
    }
    ensure_eq!(a.1, b.1, "answers with and without earlier queries");
    ensure_eq!(a.2, b.2, "counters with and without earlier queries");
    if kind == Kind::Quotient {
        // only the default builder has a `Debug` form
        let q = p.quotient();
        let mut x = QuotientFilter::<u64>::with_hasher(q.quotient_bits(), q.remainder_bits(), probabilistic_collections::SipHasherBuilder::from_seed(ent, look_seed));
        let mut r = bulk.clone();
        for _ in 0..fill.min(x.capacity()) {
            x.insert(&r.next());
        }
        let before = bincode::serialize(&x).expect("serialize");
        drop(format!("{:?} {:#?}", x, x));
        ensure!(bincode::serialize(&x).expect("serialize") == before, "formatting a quotient filter changed it");
    }
    c.label_if(fill > 20, "filled");
    c.label_if(grown > 1, "several draws of entropy");
    if steps > 3 || fill > 3 {
        c.nontrivial();
    }
    Ok(())
}

/// The same with large contents.
fn c34_big(c: &mut Case) -> R {
    let (p, n) = crate::props::general::big(c);
    let (ent, seed, chunks) = (c.g.seed(), c.g.seed(), c.g.us(1, 6));
    let mut run = |looking: bool| {
        getrandom::det_seed(ent);
        let mut x = p.build();
        let (mut r, mut l) = (Sm::new(seed), Sm::new(seed ^ 1));
        let mut states = vec![];
        for _ in 0..chunks {
            for _ in 0..n / chunks {
                let k = r.next();
                x.apply(&if p.is_cm() { Op::InsertN(k, 1 + (k % 5) as i64) } else { Op::Insert(k) });
            }
            if looking {
                let (mut a, mut b) = (Sm::new(seed), r.clone());
                let probes: Vec<u64> = (0..300).map(|_| a.next()).chain((0..300).map(|_| b.next())).collect();
                for _ in 0..3 {
                    look(&mut l, x.as_mut(), &probes);
                }
            }
            states.push(x.to_bin());
        }
        let mut s = Sm::new(seed);
        let probes: Vec<u64> = (0..n.min(1500)).map(|_| s.next()).chain((0..500).map(|_| r.next())).collect();
        (states, x.answers(&probes), x.counters())
    };
    let a = run(false);
    let b = run(true);
    for (i, (s, t)) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(s == t, "looking at the {} changed its state by checkpoint {}", crate::props::general::kind_name(p.kind), i);
    }
    ensure_eq!(a.1, b.1, "answers with and without earlier queries");
    ensure_eq!(a.2, b.2, "counters with and without earlier queries");
    c.label_if(a.0[0].len() > 70_000, "more than 70000 bytes");
    c.nontrivial();
    Ok(())
}

struct Is<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSync for Is<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Is<T> {
    const SYNC: bool = true;
}
/// Shared between threads only after `Is::<T>::SYNC` said that it may be.
struct Shared<'a, T>(&'a T);
unsafe impl<T> Sync for Shared<'_, T> {}
impl<T> Shared<'_, T> {
    fn get(&self) -> &T {
        self.0
    }
}

/// Several threads query one collection at the same time.
fn together<T>(x: &T, probes: &[u64], ask: impl Fn(&T, u64) -> Vec<u64> + Sync, seed: u64) -> R {
    let want: Vec<Vec<u64>> = probes.iter().map(|k| ask(x, *k)).collect();
    let shared = Shared(x);
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..4u64 {
            let (shared, ask, want, bad) = (&shared, &ask, &want, &bad);
            s.spawn(move || {
                let mut r = Sm::new(seed ^ t);
                let x = shared.get();
                for _ in 0..2 * probes.len() {
                    let i = r.below(probes.len() as u64) as usize;
                    let got = panics(|| ask(x, probes[i]));
                    if got.as_ref() != Ok(&want[i]) {
                        *bad.lock().unwrap() = Some((probes[i], want[i].clone(), got));
                        break;
                    }
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        None => Ok(()),
        Some((k, w, g)) => Err(format!("query for {} among others: {:?}, alone {:?}", k, g, w)),
    }
}

fn c34_threads(c: &mut Case) -> R {
    let which = c.g.idx(14);
    let h = [good_hb(&mut c.g), good_hb(&mut c.g)];
    let size = c.g.us(1, 2000);
    let n = c.g.us(0, size + size / 4);
    let s = Sm::new(c.g.seed());
    let mut t = s.clone();
    let probes: Vec<u64> = (0..60 + n.min(200)).map(|_| t.next()).collect();
    let seed = c.g.seed();
    tr!(c, "type {} size {} holding {} items", which, size, n);
    macro_rules! check {
        ($t:ty, $f:expr, $put:expr, $ask:expr) => {{
            ensure!(Is::<$t>::SYNC, "{} cannot be shared between threads", stringify!($t));
            let mut f: $t = $f;
            let mut r = s.clone();
            let put: fn(&mut $t, u64) = $put;
            for _ in 0..n {
                put(&mut f, r.next());
            }
            let before = bincode::serialize(&f).unwrap();
            together(&f, &probes, $ask, seed)?;
            ensure!(bincode::serialize(&f).unwrap() == before, "queries from several threads changed the state");
        }};
    }
    macro_rules! filter {
        ($t:ty, $f:expr) => {
            check!($t, $f, |f, k| f.insert(&k), |f: &$t, k| vec![f.contains(&k) as u64, f.len() as u64, f.is_empty() as u64])
        };
    }
    macro_rules! sketch {
        ($t:ident) => {
            check!(
                CountMinSketch<$t, u64, HB>,
                CountMinSketch::with_hashers(4, size.max(2), h),
                |f, k| f.insert(&k, (k % 7) as i64),
                |f: &CountMinSketch<$t, u64, HB>, k| vec![f.count(&k) as u64, f.error().to_bits()]
            )
        };
    }
    match which {
        0 => check!(
            BloomFilter<u64, HB>,
            BloomFilter::with_hashers(size, 0.01, h),
            |f, k| f.insert(&k),
            |f: &BloomFilter<u64, HB>, k| vec![f.contains(&k) as u64, f.count_ones() as u64, f.estimated_fpp().to_bits()]
        ),
        1 => filter!(PartitionedBloomFilter<u64, HB>, PartitionedBloomFilter::from_item_count_with_hashers(size, 0.01, h)),
        2 => filter!(ScalableBloomFilter<u64, HB>, ScalableBloomFilter::with_hashers(size, 0.01, 2.0, 0.5, h)),
        3 => filter!(BSBloomFilter<u64, HB>, BSBloomFilter::with_hashers(size, 0.01, h)),
        4 => filter!(BSSDBloomFilter<u64, HB>, BSSDBloomFilter::with_hashers(size, 0.01, h)),
        5 => filter!(RLBSBloomFilter<u64, HB>, RLBSBloomFilter::with_hashers(size, 0.01, h)),
        6 => filter!(CuckooFilter<u64, HB>, CuckooFilter::from_parameters_with_hashers(size, 16, 4, h)),
        7 => {
            // its `contains` wants exclusive access
            check!(
                ScalableCuckooFilter<u64, HB>,
                ScalableCuckooFilter::with_hashers(size, 0.01, 2.0, 0.5, h),
                |f, k| f.insert(&k),
                |f: &ScalableCuckooFilter<u64, HB>, _| vec![f.len() as u64, f.capacity() as u64, f.estimated_fpp().to_bits()]
            )
        }
        8 => {
            let q = (usize::BITS - (2 * size).leading_zeros()) as u8;
            filter!(QuotientFilter<u64, HB>, QuotientFilter::with_hasher(q, 20, h[0]))
        }
        9 => sketch!(SMin),
        10 => sketch!(SMean),
        11 => sketch!(SMedian),
        12 => check!(
            HyperLogLog<u64, HB>,
            HyperLogLog::with_hasher(0.05, h[0]),
            |f, k| f.insert(&k),
            |f: &HyperLogLog<u64, HB>, _| vec![f.len().to_bits(), f.is_empty() as u64]
        ),
        _ => {
            check!(
                MinHash<IntoIter<u64>, u64, HB>,
                MinHash::with_hashers(20, h),
                |_, _| (),
                |f: &MinHash<IntoIter<u64>, u64, HB>, k| f.get_min_hashes((k % 1000..k % 1000 + 9).collect::<Vec<_>>().into_iter())
            );
            check!(
                SimHash<IntoIter<u64>, u64, HB>,
                SimHash::with_hasher(h[0]),
                |_, _| (),
                |f: &SimHash<IntoIter<u64>, u64, HB>, k| vec![f.get_sim_hash((k % 1000..k % 1000 + 9).collect::<Vec<_>>().into_iter())]
            );
        }
    }
    c.label_if(n > 500, "more than 500 items");
    if n > 5 || which == 13 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "queries: more than three steps or items; big: all; threads: more than five items",
        assumptions: &["thread schedules are the operating system's: a race that needs a rare one may be missed"],
        scenarios: vec![
            Scenario { name: "queries", cases: 50000, thorough: 40, f: c34_queries },
            Scenario { name: "big", cases: 1500, thorough: 40, f: c34_big },
            Scenario { name: "threads", cases: 6000, thorough: 40, f: c34_threads },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C35

fn hash_with<B: BuildHasher, K: Hash + ?Sized>(b: &B, k: &K) -> u64 {
    let mut h = b.build_hasher();
    k.hash(&mut h);
    h.finish()
}
/// The i-th hash of an item whose hashes under the two builders are a and b.
fn nth_hash(a: u64, b: u64, i: u64) -> u64 {
    let i = i as u128;
    let tri = if i < 3 { 0 } else { i * (i - 1) * (i - 2) / 6 };
    (a as u128).wrapping_add((b as u128).wrapping_mul(i)).wrapping_add(tri) as u64
}
fn sequence(hb: &[HB; 2], k: &u64, n: usize) -> Vec<u64> {
    let (a, b) = (hash_with(&hb[0], k), hash_with(&hb[1], k));
    (0..n as u64).map(|i| nth_hash(a, b, i)).collect()
}

/// SipHash-2-4 of a byte string, from its definition.
fn siphash24(k0: u64, k1: u64, bytes: &[u8]) -> u64 {
    let mut v = [k0 ^ 0x736f_6d65_7073_6575, k1 ^ 0x646f_7261_6e64_6f6d, k0 ^ 0x6c79_6765_6e65_7261, k1 ^ 0x7465_6462_7974_6573];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[2] = v[2].rotate_left(32);
    }
    let mut padded = bytes.to_vec();
    while padded.len() % 8 != 7 {
        padded.push(0);
    }
    padded.push(bytes.len() as u8);
    for w in padded.chunks(8) {
        let m = u64::from_le_bytes(w.try_into().unwrap());
        v[3] ^= m;
        round(&mut v);
        round(&mut v);
        v[0] ^= m;
    }
    v[2] ^= 0xff;
    (0..4).for_each(|_| round(&mut v));
    v[0] ^ v[1] ^ v[2] ^ v[3]
}
/// Collects what `Hash` feeds.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}

fn c35_builder(c: &mut Case) -> R {
    let s = (key_half(&mut c.g), key_half(&mut c.g));
    let b = sip(s.0, s.1);
    let bytes: Vec<u8> = (0..c.g.us(0, 70)).map(|_| c.g.below(256) as u8).collect();
    let text: String = bytes.iter().map(|b| *b as char).collect();
    let num = c.g.u64();
    tr!(c, "seed {:?} key {:?} {}", s, text, num);
    macro_rules! check {
        ($k:expr) => {{
            let mut t = Tape::default();
            $k.hash(&mut t);
            let want = siphash24(s.0, s.1, &t.0);
            ensure_eq!(hash_with(&b, $k), want, "hash of {} under seed {:?}", stringify!($k), s);
            ensure_eq!(hash_with(&b, $k), want, "hash of {} under seed {:?} again", stringify!($k), s);
        }};
    }
    check!(&text);
    check!(&bytes);
    check!(&num);
    check!(&(num as u8, num as u16, num as i32, text.as_str(), num as u128));
    check!(&Some(vec![text.clone(), String::new()]));
    check!(&());
    if !text.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

/// Two random lists: items put in, and probes that include them.
fn items(c: &mut Case, max: usize) -> (Vec<u64>, Vec<u64>) {
    let n = c.g.us(1, max);
    let mut keys = pool(&mut c.g, n);
    Sm::new(c.g.seed()).shuffle(&mut keys);
    let mut s = Sm::new(c.g.seed());
    let near = keys[0];
    let probes = keys.iter().copied().chain((0..200).map(|_| s.next())).chain((1..40).map(|i| near.wrapping_add(i))).collect();
    (keys, probes)
}

fn c35_bits(c: &mut Case) -> R {
    let hb = any_pair(&mut c.g);
    let (keys, probes) = items(c, 60);
    let which = c.g.idx(5);
    tr!(c, "type {} builders {:?} keys {:?}", which, hb, &keys[..keys.len().min(5)]);
    if which < 2 {
        // (bits, hash count) or (partition, hash count), all positions in one set
        let mut set = BTreeSet::new();
        macro_rules! run {
            ($f:expr, $pos:expr) => {{
                let mut f = $f;
                let (k, pos) = (f.hasher_count(), $pos);
                for (t, x) in keys.iter().enumerate() {
                    f.insert(x);
                    set.extend(sequence(&hb, x, k).into_iter().enumerate().map(|(i, h)| pos(i, h)));
                    ensure_eq!(f.count_ones(), set.len(), "ones after {} items", t + 1);
                    if t % 8 == 0 || t + 1 == keys.len() {
                        for p in &probes {
                            let want = sequence(&hb, p, k).into_iter().enumerate().all(|(i, h)| set.contains(&pos(i, h)));
                            ensure_eq!(f.contains(p), want, "contains({}) after {} items", p, t + 1);
                        }
                    }
                }
                c.label_if(f.count_zeros() == 0, "no zeros left");
                k
            }};
        }
        let k = if which == 0 {
            let f = BloomFilter::<u64, HB>::from_item_count_with_hashers(c.g.us(1, 600), c.g.us(1, 60), hb);
            let m = f.len() as u64;
            run!(f, |_: usize, h: u64| (h % m) as usize)
        } else {
            let f = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(c.g.us(1, 200), c.g.flog(1e-9, 0.9), hb);
            let m = f.bit_count();
            run!(f, |i: usize, h: u64| i * m + (h % m as u64) as usize)
        };
        c.label(if which == 0 { "Bloom" } else { "partitioned" });
        c.label_if(k > 3, "more than three hashes");
    } else {
        // the first item of a stream filter finds nothing to delete
        let (size, fpp) = (c.g.us(1, 60), c.g.flog(1e-4, 0.9));
        macro_rules! run {
            ($t:ident) => {
                for x in keys.iter().take(5) {
                    let mut f = $t::<u64, HB>::with_hashers(size, fpp, hb);
                    f.insert(x);
                    let (k, m) = (f.hasher_count(), f.bit_count() as u64);
                    let at = |p: &u64| sequence(&hb, p, k).into_iter().map(|h| h % m).collect::<Vec<_>>();
                    let own = at(x);
                    ensure_eq!(f.count_ones(), k, "ones of one item");
                    for p in &probes {
                        ensure_eq!(f.contains(p), at(p) == own, "contains({}) in a filter of {}", p, x);
                    }
                }
            };
        }
        match which {
            2 => run!(BSBloomFilter),
            3 => run!(BSSDBloomFilter),
            _ => run!(RLBSBloomFilter),
        }
        c.label("stream filter");
    }
    if keys.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

fn c35_counts(c: &mut Case) -> R {
    let hb = any_pair(&mut c.g);
    let (keys, probes) = items(c, 40);
    let (rows, cols) = (c.g.us(1, 12), c.g.us(1, 120));
    tr!(c, "{} x {} builders {:?} keys {:?}", rows, cols, hb, &keys[..keys.len().min(5)]);
    let mut f = CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(rows, cols, hb);
    let mut grid = vec![vec![0i64; cols]; rows];
    let at = |x: &u64| sequence(&hb, x, rows).into_iter().map(|h| (h % cols as u64) as usize).collect::<Vec<_>>();
    for x in &keys {
        let n = c.g.irange(-50, 1000);
        f.insert(x, n);
        for (r, col) in at(x).into_iter().enumerate() {
            grid[r][col] += n;
        }
    }
    for p in &probes {
        let want = at(p).into_iter().enumerate().map(|(r, col)| grid[r][col]).min();
        ensure_eq!(Some(f.count(p)), want, "count of {}", p);
    }
    // signatures
    let k = c.g.us(1, 40);
    let m = MinHash::<IntoIter<u64>, u64, HB>::with_hashers(k, hb);
    let n = c.g.us(1, keys.len());
    let want: Vec<u64> = (0..k).map(|i| keys[..n].iter().map(|x| nth_hash(hash_with(&hb[0], x), hash_with(&hb[1], x), i as u64)).min().unwrap()).collect();
    ensure_eq!(m.get_min_hashes(keys[..n].to_vec().into_iter()), want, "MinHash signature of {} items", n);
    let s = SimHash::<IntoIter<u64>, u64, HB>::with_hasher(hb[0]);
    let mut want = 0u64;
    for bit in 0..64 {
        let ones = keys[..n].iter().filter(|x| hash_with(&hb[0], *x) >> bit & 1 == 1).count();
        // most significant first, and a majority of zeros (or a tie) gives a one
        if 2 * ones <= n {
            want |= 1 << (63 - bit);
        }
    }
    ensure_eq!(s.get_sim_hash(keys[..n].to_vec().into_iter()), want, "SimHash of {} items", n);
    c.label_if(rows > 3, "more than three rows");
    if keys.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

fn c35_registers(c: &mut Case) -> R {
    let hb = any_hb(&mut c.g);
    let err = c.g.flog(0.01, 0.95);
    let (keys, _) = items(c, 60);
    let n = c.g.logu(1, 30_000);
    let m2 = (1.04 / err).powi(2).log2().ceil();
    if ((1.04 / err).powi(2).log2() - m2).abs() < 1e-9 || ((1.04 / err).powi(2).log2() - m2 + 1.0).abs() < 1e-9 {
        return Ok(());
    }
    let p = m2 as usize;
    tr!(c, "error {} precision {} builder {:?} keys {:?} and {} more", err, p, hb, &keys[..keys.len().min(5)], n);
    let mut f = HyperLogLog::<u64, HB>::with_hasher(err, hb);
    let mut reg = vec![0u8; 1 << p];
    let mut s = Sm::new(c.g.seed());
    for i in 0..keys.len() + n {
        let x = if i < keys.len() { keys[i] } else { s.next() };
        f.insert(&x);
        let h = hash_with(&hb, &x);
        let r = &mut reg[(h & ((1 << p) - 1)) as usize];
        // ones at the low end of what is left of the hash
        let rest = h >> p;
        let ones = rest.trailing_ones();
        if ones == 64 - p as u32 {
            // nothing but ones: whether the bits shifted in count as ones is not fixed
            c.label("all ones");
            return Ok(());
        }
        *r = (*r).max(ones as u8 + 1);
        if i + 1 == keys.len() || i + 1 == keys.len() + n || i < 3 {
            let m = reg.len() as f64;
            let alpha = match p {
                4 => 0.673,
                5 => 0.697,
                6 => 0.709,
                _ => 0.7213 / (1.0 + 1.079 / m),
            };
            let raw = alpha * m * m / reg.iter().map(|v| 0.5f64.powi(*v as i32)).sum::<f64>();
            let zeros = reg.iter().filter(|v| **v == 0).count();
            let lin = m * (m / zeros as f64).ln();
            let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs() + 1e-9;
            let small = zeros > 0 && raw <= 2.5 * m;
            let want = if small { lin } else { raw };
            // next to the switch-over either will do
            let edge = (raw - 2.5 * m).abs() < 1e-9 * m && zeros > 0;
            let got = f.len();
            ensure!(close(got, want) || edge && (close(got, lin) || close(got, raw)), "estimate {} after {} items instead of {}", got, i + 1, want);
            c.label(if small { "linear counting" } else { "harmonic mean" });
        }
    }
    if n > 20 {
        c.nontrivial();
    }
    Ok(())
}

fn c35_fingerprints(c: &mut Case) -> R {
    let hb = cuckoo_pair(&mut c.g);
    let (keys, probes) = items(c, 60);
    let n = c.g.us(1, 80);
    let steps: Vec<(bool, u64)> = (0..n).map(|_| (c.g.chance(1, 3), *c.g.pick(&keys))).collect();
    if c.g.chance(1, 2) {
        let (q, r) = (c.g.us(1, 10) as u8, if c.g.chance(1, 3) { c.g.us(1, 54) } else { c.g.us(1, 5) } as u8);
        let hb = any_hb(&mut c.g);
        tr!(c, "quotient filter {} + {} bits, builder {:?}, (removal, key) {:?}", q, r, hb, steps);
        let mut f = QuotientFilter::<u64, HB>::with_hasher(q, r, hb);
        // all that counts is the q + r low bits of the hash
        let class = |k: &u64| if q + r == 64 { hash_with(&hb, k) } else { hash_with(&hb, k) & ((1 << (q + r)) - 1) };
        let mut live = BTreeSet::new();
        for (rm, k) in &steps {
            if *rm {
                f.remove(k);
                live.remove(&class(k));
            } else if live.len() < f.capacity() || live.contains(&class(k)) {
                f.insert(k);
                live.insert(class(k));
            }
        }
        ensure_eq!(f.len(), live.len(), "fingerprints");
        for p in &probes {
            ensure_eq!(f.contains(p), live.contains(&class(p)), "contains({})", p);
        }
        c.label("quotient");
    } else {
        let (size, bits, entries) = (c.g.us(1, 80), c.g.us(3, 64), c.g.us(1, 5));
        tr!(c, "cuckoo filter {} of {} bits, {} per bucket, builders {:?}, (removal, key) {:?}", size, bits, entries, hb, steps);
        let mut f = CuckooFilter::<u64, HB>::from_parameters_with_hashers(size, bits, entries, hb);
        let buckets = f.bucket_len() as u64;
        let low = |h: u64| if bits == 64 { h } else { h & ((1 << bits) - 1) };
        let mut cache: HashMap<u64, (u64, u64, u64)> = HashMap::new();
        let mut class = |k: &u64| {
            *cache.entry(*k).or_insert_with(|| {
                let mut h = hash_with(&hb[0], k);
                while low(h) == 0 {
                    h = hash_with(&hb[0], &h.wrapping_add(1));
                }
                let i = hash_with(&hb[1], k) % buckets;
                let j = (i ^ hash_with(&hb[1], &low(h))) % buckets;
                (low(h), i.min(j), i.max(j))
            })
        };
        let mut live = BTreeSet::new();
        for (rm, k) in &steps {
            if *rm {
                f.remove(k);
                live.remove(&class(k));
            } else {
                f.insert(k);
                live.insert(class(k));
            }
        }
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries");
        for p in &probes {
            let x = class(p);
            ensure_eq!(f.contains(p), live.contains(&x), "contains({}) of class {:?}", p, x);
        }
        c.label("cuckoo");
        c.label_if(f.extra_items_len() > 0, "overflowed cuckoo");
    }
    if n > 3 {
        c.nontrivial();
    }
    Ok(())
}

/// Other numbers that are `x` modulo `m`, and neighbours that are not.
fn aliases(s: &mut Sm, x: u64, m: u64, out: &mut Vec<u64>) {
    out.push(x);
    for _ in 0..12 {
        let t = match s.below(4) {
            // the positions agree until the hash sequence wraps around
            3 => (u64::MAX / (2 + (s.below(64) << s.below(6)))) / m.max(1),
            0 => 1 + s.below(4),
            1 => 1u64 << s.below(20),
            _ => 1 + s.below(1 << 20),
        };
        let y = x.wrapping_add(m.wrapping_mul(t));
        out.push(y);
        out.push(y.wrapping_add(1));
        out.push(y ^ 1 << s.below(64));
        out.push(y.wrapping_add(m / 2));
    }
}

/// Large tables, many hash functions and long signatures: chosen hash values, whose places are known to be shared or not.
fn c35_wide(c: &mut Case) -> R {
    let which = c.g.idx(8);
    let mut s = Sm::new(c.g.seed());
    let hb = if c.g.chance(1, 4) { good_pair(&mut c.g) } else { [HB::Ident; 2] };
    let n = c.g.us(1, 5);
    let high = *c.g.pick(&[10u32, 20, 30, 40]);
    let keys: Vec<u64> = (0..n).map(|_| s.next() >> (64 - high)).collect();
    let mut probes = vec![];
    let (mut yes, mut no) = (0, 0);
    macro_rules! compare {
        ($got:expr, $want:expr, $($arg:tt)*) => {{
            let want = $want;
            ensure_eq!($got, want, $($arg)*);
            if want { yes += 1 } else { no += 1 }
        }};
    }
    match which {
        0 | 1 => {
            let m = c.g.logu(1000, 1 << 24);
            let k = c.g.logu(1, 3000);
            macro_rules! run {
                ($f:expr, $m:expr, $pos:expr) => {{
                    let mut f = $f;
                    let m: usize = $m(&f);
                    let (k, pos) = (f.hasher_count(), $pos(m as u64));
                    tr!(c, "{} hash functions over {} positions, builders {:?}, keys {:?}", k, m, hb, keys);
                    let mut set = BTreeSet::new();
                    for x in &keys {
                        f.insert(x);
                        set.extend(sequence(&hb, x, k).into_iter().enumerate().map(|(i, h)| pos(i, h)));
                        aliases(&mut s, *x, m as u64, &mut probes);
                    }
                    ensure_eq!(f.count_ones(), set.len(), "ones of {} items", n);
                    for p in &probes {
                        let want = sequence(&hb, p, k).into_iter().enumerate().all(|(i, h)| set.contains(&pos(i, h)));
                        compare!(f.contains(p), want, "contains({})", p);
                    }
                    c.label_if(k > 100, "more than 100 hash functions");
                    c.label_if(m > 1 << 20, "more than 2^20 positions");
                }};
            }
            if which == 0 {
                let items = ((m as f64 * 0.6931 / k as f64) as usize).max(1);
                run!(BloomFilter::<u64, HB>::from_item_count_with_hashers(m, items, hb), |f: &BloomFilter<u64, HB>| f.len(), |m: u64| move |_: usize, h: u64| h % m);
            } else {
                let m = c.g.logu(1000, 1 << 20);
                // up to a thousand hash functions
                let fpp = if c.g.chance(1, 2) { c.g.flog(1e-300, 1e-15) } else { c.g.flog(1e-15, 0.5) };
                run!(
                    PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(m, fpp, hb),
                    |f: &PartitionedBloomFilter<u64, HB>| f.bit_count(),
                    |m: u64| move |i: usize, h: u64| i as u64 * m + h % m
                );
            }
        }
        2 => {
            let rows = c.g.logu(1, 3000);
            let cols = c.g.logu(1, (1 << 21) / rows);
            tr!(c, "{} x {} builders {:?} keys {:?}", rows, cols, hb, keys);
            let mut f = CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(rows, cols, hb);
            let mut grid: HashMap<(usize, u64), i64> = HashMap::new();
            for x in &keys {
                let n = c.g.irange(1, 1000);
                f.insert(x, n);
                for (r, h) in sequence(&hb, x, rows).into_iter().enumerate() {
                    *grid.entry((r, h % cols as u64)).or_default() += n;
                }
                aliases(&mut s, *x, cols as u64, &mut probes);
            }
            for p in &probes {
                let want = sequence(&hb, p, rows).into_iter().enumerate().map(|(r, h)| grid.get(&(r, h % cols as u64)).copied().unwrap_or(0)).min();
                let got = f.count(p);
                ensure_eq!(Some(got), want, "count of {}", p);
                if got == 0 {
                    no += 1
                } else {
                    yes += 1
                }
            }
        }
        3 => {
            let k = c.g.logu(1, 20_000);
            tr!(c, "signature of {} numbers, builders {:?}, items {:?}", k, hb, keys);
            let m = MinHash::<IntoIter<u64>, u64, HB>::with_hashers(k, hb);
            let got = m.get_min_hashes(keys.clone().into_iter());
            ensure_eq!(got.len(), k, "signature length");
            let of: Vec<(u64, u64)> = keys.iter().map(|x| (hash_with(&hb[0], x), hash_with(&hb[1], x))).collect();
            for (i, x) in got.iter().enumerate() {
                let want = of.iter().map(|h| nth_hash(h.0, h.1, i as u64)).min().unwrap();
                ensure_eq!(*x, want, "number {} of the signature of {:?}", i, keys);
            }
            (yes, no) = (1, 1);
        }
        4 => {
            let p = c.g.us(4, 21);
            let mut f = HyperLogLog::<u64, HB>::with_hasher(1.04 / 2f64.powi(p as i32).sqrt() * 1.0001, hb[0]);
            let mut reg = BTreeSet::new();
            tr!(c, "precision {} builder {:?} keys {:?}", p, hb[0], keys);
            for x in &keys {
                aliases(&mut s, *x, 1 << p, &mut probes);
            }
            probes.truncate(1 + s.below(probes.len() as u64) as usize);
            for x in &probes {
                f.insert(x);
                let h = hash_with(&hb[0], x);
                if reg.insert(h & ((1 << p) - 1)) {
                    no += 1
                } else {
                    yes += 1
                }
                // with this few registers in use the estimate is linear counting, and tells how many there are
                let m = (1u64 << p) as f64;
                if reg.len() < m as usize / 8 {
                    let want = m * (m / (m - reg.len() as f64)).ln();
                    let got = f.len();
                    ensure!((got - want).abs() < 1e-3, "estimate {} after {} with {} registers in use, not {}", got, x, reg.len(), want);
                }
            }
        }
        5 => {
            let q = c.g.us(8, 22);
            let r = c.g.us(1, 60 - q);
            tr!(c, "quotient filter {} + {} bits, builder {:?}, keys {:?}", q, r, hb[0], keys);
            let mut f = QuotientFilter::<u64, HB>::with_hasher(q as u8, r as u8, hb[0]);
            let class = |k: &u64| hash_with(&hb[0], k) & ((1 << (q + r)) - 1);
            for x in &keys {
                f.insert(x);
                aliases(&mut s, *x, 1 << (q + r), &mut probes);
                aliases(&mut s, *x, 1 << q, &mut probes);
                aliases(&mut s, *x, 1 << r, &mut probes);
            }
            let live: BTreeSet<u64> = keys.iter().map(class).collect();
            ensure_eq!(f.len(), live.len(), "fingerprints");
            for p in &probes {
                compare!(f.contains(p), live.contains(&class(p)), "contains({})", p);
            }
        }
        6 => {
            // one item in an empty stream filter: nothing is there to be deleted
            let m = c.g.logu(1000, 1 << 20);
            let fpp = if c.g.chance(1, 2) { c.g.flog(1e-300, 1e-15) } else { c.g.flog(1e-15, 0.5) };
            aliases(&mut s, keys[0], m as u64, &mut probes);
            aliases(&mut s, keys[0], m as u64, &mut probes);
            macro_rules! run {
                ($kind:ident) => {{
                    let mut f = $kind::<u64, HB>::with_hashers(m, fpp, hb);
                    f.insert(&keys[0]);
                    let k = f.hasher_count();
                    tr!(c, "{} of {} sub-filters of {} bits, builders {:?}, key {}", stringify!($kind), k, m, hb, keys[0]);
                    let at: Vec<u64> = sequence(&hb, &keys[0], k).into_iter().map(|h| h % m as u64).collect();
                    for p in &probes {
                        let want = sequence(&hb, p, k).into_iter().map(|h| h % m as u64).eq(at.iter().copied());
                        compare!(f.contains(p), want, "contains({})", p);
                    }
                }};
            }
            match c.g.idx(3) {
                0 => run!(BSBloomFilter),
                1 => run!(BSSDBloomFilter),
                _ => run!(RLBSBloomFilter),
            }
        }
        _ => {
            let (size, bits, entries) = (c.g.logu(100, 1 << 20), c.g.us(3, 64), c.g.us(1, 5));
            let mut f = CuckooFilter::<u64, HB>::from_parameters_with_hashers(size, bits, entries, hb);
            let buckets = f.bucket_len() as u64;
            tr!(c, "cuckoo filter of {} buckets, {} bits, {} per bucket, builders {:?}, keys {:?}", buckets, bits, entries, hb, keys);
            let low = |h: u64| if bits == 64 { h } else { h & ((1 << bits) - 1) };
            let class = |k: &u64| {
                let mut h = hash_with(&hb[0], k);
                while low(h) == 0 {
                    h = hash_with(&hb[0], &h.wrapping_add(1));
                }
                let i = hash_with(&hb[1], k) % buckets;
                let j = (i ^ hash_with(&hb[1], &low(h))) % buckets;
                (low(h), i.min(j), i.max(j))
            };
            for x in &keys {
                f.insert(x);
                aliases(&mut s, *x, buckets, &mut probes);
                aliases(&mut s, *x, 1u64 << (bits - 1) << 1, &mut probes);
                aliases(&mut s, *x, buckets.max(1u64 << bits.min(50)), &mut probes);
                // the same fingerprint, and the other bucket
                let h = hash_with(&hb[1], &low(hash_with(&hb[0], x)));
                aliases(&mut s, x ^ (h & (buckets - 1)), buckets.max(1u64 << bits.min(50)), &mut probes);
            }
            let live: BTreeSet<_> = keys.iter().map(class).collect();
            ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries");
            for p in &probes {
                let x = class(p);
                compare!(f.contains(p), live.contains(&x), "contains({}) of class {:?}", p, x);
            }
        }
    }
    c.label(["Bloom", "partitioned", "sketch", "signature", "registers", "quotient", "stream", "cuckoo"][which]);
    if yes > n && no > 0 || which == 3 || which == 6 && yes > 1 && no > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c35() -> Prop {
    Prop {
        id: "C35",
        rule: "builder: non-empty text; bits, counts: more than two items; registers: more than 20 items; fingerprints: more than three steps; wide: answers of both kinds, more positive ones than items",
        assumptions: &["the placement functions of the pinned version are the reference"],
        scenarios: vec![
            Scenario { name: "builder", cases: 60000, thorough: 40, f: c35_builder },
            Scenario { name: "bits", cases: 20000, thorough: 40, f: c35_bits },
            Scenario { name: "counts", cases: 72000, thorough: 40, f: c35_counts },
            Scenario { name: "registers", cases: 27000, thorough: 40, f: c35_registers },
            Scenario { name: "fingerprints", cases: 60000, thorough: 40, f: c35_fingerprints },
            Scenario { name: "wide", cases: 4000, thorough: 40, f: c35_wide },
        ],
        known: vec![],
    }
}
