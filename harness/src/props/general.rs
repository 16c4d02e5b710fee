//! C25-C28 and C30: what every collection has in common.
use crate::coll::*;
use crate::keys::*;
use engine::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::*;
use probabilistic_collections::SipHasherBuilder;
use serde::Serialize;
use std::collections::BTreeSet;
use std::hash::{BuildHasher, Hash, Hasher};
use std::vec::IntoIter;

pub fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Bloom => "Bloom",
        Kind::Partitioned => "PartitionedBloom",
        Kind::ScalableBloom => "ScalableBloom",
        Kind::Bs => "BS",
        Kind::Bssd => "BSSD",
        Kind::Rlbs => "RLBS",
        Kind::Cuckoo => "Cuckoo",
        Kind::ScalableCuckoo => "ScalableCuckoo",
        Kind::Quotient => "Quotient",
        Kind::CmMin => "CountMin min",
        Kind::CmMean => "CountMin mean",
        Kind::CmMedian => "CountMin median",
        Kind::Hll => "HyperLogLog",
    }
}

/// An instance with the items it must know: present ones must be answered so.
struct Inst {
    c: Box<dyn Coll>,
    live: BTreeSet<u64>,
}
impl Inst {
    fn new(c: Box<dyn Coll>) -> Inst {
        Inst { c, live: BTreeSet::new() }
    }
    fn has(&mut self, k: u64) -> bool {
        self.c.answers(&[k])[0] == 1
    }
    /// Index of a counter: see the `Coll` implementations.
    fn ctr(&self, i: usize) -> i128 {
        self.c.counters()[i]
    }
    fn apply(&mut self, p: &Params, op: &Op) -> R {
        match (p.kind, op) {
            (Kind::ScalableCuckoo, Op::Insert(k)) => {
                // badly distributed hashes make the layers grow exponentially
                if self.ctr(2) > 200_000 {
                    return Ok(());
                }
                if !self.has(*k) {
                    self.live.insert(*k);
                }
                self.c.apply(op);
            }
            // removing an item that is only a false positive takes another one away
            (Kind::ScalableCuckoo, Op::Remove(k)) => {
                if self.live.remove(k) {
                    self.c.apply(op);
                }
            }
            (Kind::Cuckoo, Op::Insert(_)) | (Kind::ScalableBloom, Op::Insert(_)) => {
                self.c.apply(op);
            }
            (_, Op::Clear) => {
                self.live.clear();
                self.c.apply(op);
            }
            _ => self.c.apply(op),
        }
        if let Op::Insert(k) = op {
            if p.is_stream() {
                ensure!(self.has(*k), "{} absent right after its insertion", k);
            }
        }
        Ok(())
    }
    fn check(&mut self, what: &str) -> R {
        let v: Vec<u64> = self.live.iter().copied().collect();
        for (k, a) in v.iter().zip(self.c.answers(&v)) {
            ensure!(a == 1, "{}: {} is missing", what, k);
        }
        Ok(())
    }
}

/// Everything observable must agree, except what the random choices of `p.kind` leave open.
fn same(p: &Params, a: &mut Inst, b: &mut Inst, probes: &[u64], exact: bool, what: &str) -> R {
    let (ca, cb) = (a.c.counters(), b.c.counters());
    if exact || !p.has_rng() {
        ensure_eq!(a.c.answers(probes), b.c.answers(probes), "{}: answers", what);
        ensure_eq!(ca, cb, "{}: counters", what);
        return Ok(());
    }
    match p.kind {
        Kind::Cuckoo => {
            ensure_eq!(a.c.answers(probes), b.c.answers(probes), "{}: answers", what);
            ensure_eq!(ca[0] + ca[5], cb[0] + cb[5], "{}: entries", what);
            ensure_eq!((ca[1], &ca[2..5], ca[7]), (cb[1], &cb[2..5], cb[7]), "{}: counters", what);
        }
        Kind::ScalableCuckoo => {
            a.check(what)?;
            b.check(what)?;
            ensure_eq!(ca[3], cb[3], "{}: entries per index", what);
            if ca[4] == 1 && cb[4] == 1 {
                ensure_eq!(ca[2], cb[2], "{}: capacity", what);
                ensure_eq!(a.c.answers(probes), b.c.answers(probes), "{}: answers", what);
            }
        }
        _ => {
            ensure_eq!(ca[0..4], cb[0..4], "{}: parameters", what);
            ensure_eq!((ca[0], cb[0]), (ca[4] + ca[5], cb[4] + cb[5]), "{}: ones + zeros", what);
        }
    }
    Ok(())
}

struct Setup {
    p: Params,
    keys: Vec<u64>,
    probes: Vec<u64>,
}
fn setup(c: &mut Case) -> Setup {
    let kind = KINDS[c.g.idx(KINDS.len())];
    c.label(kind_name(kind));
    let scale = match c.g.weighted(&[4, 2, 1]) {
        0 => c.g.us(1, 12),
        1 => c.g.us(1, 60),
        _ => c.g.us(30, 300),
    };
    let p = gen_params(&mut c.g, kind, scale);
    let n = c.g.us(1, 40);
    let keys = pool(&mut c.g, n);
    let mut probes = keys.clone();
    let mut s = Sm::new(c.g.seed());
    probes.extend((0..30).map(|_| s.next()));
    probes.extend(0..10);
    tr!(c, "{:?} with {} keys from {:?}", p, n, &keys[..n.min(4)]);
    Setup { p, keys, probes }
}
fn op_at(c: &mut Case, s: &Setup, clear: u64) -> Op {
    let op = gen_op(&mut c.g, &s.p, &s.keys, clear);
    tr!(c, "{:?}", op);
    op
}
/// Random history, sometimes preceded by a bulk fill.
fn history(c: &mut Case, s: &Setup, i: &mut Inst, clear: u64) -> R {
    if c.g.chance(1, 3) {
        let n = c.g.us(0, 250);
        let mut r = Sm::new(c.g.seed());
        tr!(c, "{} random items", n);
        for _ in 0..n {
            i.apply(&s.p, &Op::Insert(r.next()))?;
        }
    }
    let n = c.g.us(0, 40);
    for _ in 0..n {
        let op = op_at(c, s, clear);
        i.apply(&s.p, &op)?;
    }
    state_labels(c, &s.p, i);
    Ok(())
}
fn state_labels(c: &mut Case, p: &Params, i: &Inst) {
    let k = i.c.counters();
    c.label_if(p.kind == Kind::Cuckoo && k[5] > 0, "overflowed cuckoo");
    c.label_if(p.kind == Kind::ScalableCuckoo && k[4] > 1, "grown cuckoo");
    c.label_if(p.kind == Kind::ScalableBloom && k[2] > 1, "grown bloom");
    c.label_if(p.kind == Kind::Quotient && k[0] == k[2], "full quotient");
}

/// A collection of thousands to hundreds of thousands of items, well hashed, and how many items to fill it with.
pub fn big(c: &mut Case) -> (Params, usize) {
    let kind = KINDS[c.g.idx(KINDS.len())];
    c.label(kind_name(kind));
    let scale = c.g.logu(2000, 250_000);
    let mut p = gen_params(&mut c.g, kind, scale);
    if p.hb.iter().any(|h| !matches!(h, HB::Mix(_) | HB::Sip(_))) {
        p.hb = good_pair(&mut c.g);
    }
    match kind {
        Kind::Hll => p.f = c.g.flog(0.0015, 0.03),
        Kind::Quotient if p.variant == 0 => {
            p.a = c.g.us(9, 17);
            p.b = p.b.min(64 - p.a);
        }
        Kind::Bs | Kind::Bssd | Kind::Rlbs => p.f = p.f.max(1e-4),
        _ => {}
    }
    let mut n = c.g.logu(300, scale.min(60_000));
    match kind {
        Kind::Cuckoo => n = n.min(p.a),
        Kind::ScalableBloom | Kind::ScalableCuckoo => n = n.min(60 * p.a),
        // answers take a pass over each sub-filter
        Kind::Rlbs => n = n.min(20_000_000 / p.a + 100),
        Kind::Quotient => n = n.min(if p.variant == 0 { (1 << p.a) * 9 / 10 } else { p.a }),
        _ => {}
    }
    tr!(c, "{:?} filled with {}", p, n);
    (p, n)
}
pub fn fill(p: &Params, i: &mut Inst, n: usize, r: &mut Sm) -> R {
    for _ in 0..n {
        let k = r.next();
        if p.is_cm() {
            i.c.apply(&Op::InsertN(k, 1 + (k % 5) as i64));
        } else {
            i.c.apply(&Op::Insert(k));
        }
    }
    Ok(())
}
fn big_probes(seed: u64, n: usize, r: &mut Sm) -> Vec<u64> {
    let mut s = Sm::new(seed);
    (0..n.min(3000)).map(|_| s.next()).chain((0..1000).map(|_| r.next())).collect()
}

/// The same as `roundtrip`, `clear` and `clone`, with large contents.
fn c25_big(c: &mut Case) -> R {
    let (p, n) = big(c);
    let mut a = Inst::new(p.build());
    let seed = c.g.seed();
    fill(&p, &mut a, n, &mut Sm::new(seed))?;
    let binary = c.g.chance(2, 3);
    let bytes = a.c.to_bin();
    let copy = if binary { a.c.from_bin(&bytes) } else { a.c.from_json(&a.c.to_json()) };
    let copy = match copy {
        Ok(x) => x,
        Err(e) => fail!("deserialisation failed: {}", e),
    };
    let mut b = Inst::new(copy);
    ensure!(b.c.to_bin() == bytes, "serialising the restored copy gives other bytes");
    let mut r = Sm::new(c.g.seed());
    let probes = big_probes(seed, n, &mut r);
    same(&p, &mut a, &mut b, &probes, true, "restored")?;
    if !p.has_rng() {
        let m = (n / 10).min(2000);
        fill(&p, &mut a, m, &mut r.clone())?;
        fill(&p, &mut b, m, &mut r)?;
        same(&p, &mut a, &mut b, &probes, true, "after further operations")?;
        ensure!(a.c.to_bin() == b.c.to_bin(), "the restored copy ends with other bytes");
    }
    c.label(if binary { "binary" } else { "JSON" });
    c.label_if(bytes.len() > 70_000, "more than 70000 bytes");
    c.nontrivial();
    Ok(())
}
fn c27_big(c: &mut Case) -> R {
    let (p, n) = big(c);
    let mut a = Inst::new(p.build());
    let empty = a.c.to_bin();
    let (seed, mut r) = (c.g.seed(), Sm::new(c.g.seed()));
    fill(&p, &mut a, n, &mut Sm::new(seed))?;
    a.apply(&p, &Op::Clear)?;
    let mut b = Inst::new(p.build());
    let probes = big_probes(seed, n, &mut r);
    same(&p, &mut a, &mut b, &probes, true, "cleared and new")?;
    ensure_eq!(a.c.hashers(), b.c.hashers(), "hash builders");
    // what is left behind may show later only
    let m = n.min(3000);
    fill(&p, &mut a, m, &mut r.clone())?;
    fill(&p, &mut b, m, &mut r)?;
    same(&p, &mut a, &mut b, &probes, false, "filling the cleared and the new one")?;
    if !p.has_rng() {
        ensure!(a.c.to_bin() == b.c.to_bin(), "the cleared and the new one end with other bytes");
    }
    c.label_if(empty.len() > 70_000, "more than 70000 bytes");
    c.nontrivial();
    Ok(())
}
fn c28_big(c: &mut Case) -> R {
    let (p, n) = big(c);
    let mut a = Inst::new(p.build());
    let (seed, mut r) = (c.g.seed(), Sm::new(c.g.seed()));
    fill(&p, &mut a, n, &mut Sm::new(seed))?;
    let copy = if c.g.chance(1, 2) {
        a.c.boxed()
    } else {
        let mut q = gen_params(&mut c.g, p.kind, 3000);
        q.hb = good_pair(&mut c.g);
        let mut u = q.build();
        for _ in 0..50 {
            u.apply(&Op::Insert(r.next()));
        }
        a.c.clone_into_used(u.as_mut());
        u
    };
    let mut b = Inst::new(copy);
    let probes = big_probes(seed, n, &mut r);
    let bytes = a.c.to_bin();
    ensure!(b.c.to_bin() == bytes, "the clone has another serialised form");
    same(&p, &mut a, &mut b, &probes, true, "clone")?;
    let m = n.min(3000);
    let (ans, ctr) = (b.c.answers(&probes), b.c.counters());
    let again = r.clone();
    fill(&p, &mut a, m, &mut r)?;
    ensure!(b.c.to_bin() == bytes && b.c.answers(&probes) == ans && b.c.counters() == ctr, "filling the original changes the clone");
    fill(&p, &mut b, m, &mut again.clone())?;
    // layers made since draw their own random choices
    let exact = !p.has_rng() || p.kind != Kind::ScalableCuckoo;
    same(&p, &mut a, &mut b, &probes, exact, "clone and original under equal operations")?;
    let now = a.c.to_bin();
    ensure!(!exact || b.c.to_bin() == now, "clone and original end with other bytes after equal operations");
    b.apply(&p, &Op::Clear)?;
    ensure!(a.c.to_bin() == now, "clearing the clone changes the original");
    c.label_if(bytes.len() > 70_000, "more than 70000 bytes");
    c.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- C25

fn c25_roundtrip(c: &mut Case) -> R {
    let s = setup(c);
    let mut a = Inst::new(s.p.build());
    history(c, &s, &mut a, 1)?;
    let binary = !c.g.chance(1, 2);
    let bytes = a.c.to_bin();
    let copy = if binary {
        a.c.from_bin(&bytes)
    } else {
        let j = a.c.to_json();
        let r = a.c.from_json(&j);
        if let Ok(b) = &r {
            ensure!(b.to_json() == j, "serialising the restored copy gives other JSON");
        }
        r
    };
    tr!(c, "round trip, {}", if binary { "binary" } else { "JSON" });
    let copy = match copy {
        Ok(x) => x,
        Err(e) => fail!("deserialisation failed: {}", e),
    };
    let mut b = Inst { c: copy, live: a.live.clone() };
    ensure!(b.c.to_bin() == bytes, "serialising the restored copy gives other bytes");
    ensure_eq!(a.c.hashers(), b.c.hashers(), "hash builders");
    // nothing random has happened since
    same(&s.p, &mut a, &mut b, &s.probes, true, "restored")?;
    let n = c.g.us(0, 40);
    for i in 0..n {
        let op = op_at(c, &s, 1);
        a.apply(&s.p, &op)?;
        b.apply(&s.p, &op)?;
        if i % 4 == 3 {
            same(&s.p, &mut a, &mut b, &s.probes, false, "after further operations")?;
        }
    }
    same(&s.p, &mut a, &mut b, &s.probes, false, "at the end")?;
    if !s.p.has_rng() {
        ensure!(a.c.to_bin() == b.c.to_bin(), "the restored copy ends with other bytes");
    }
    c.label(if binary { "binary" } else { "JSON" });
    if n > 3 {
        c.nontrivial();
    }
    Ok(())
}

fn bin<T: serde::Serialize + serde::de::DeserializeOwned>(json: bool, x: &T) -> Result<T, String> {
    if json {
        let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
        serde_json::from_str(&s).map_err(|e| e.to_string())
    } else {
        let s = bincode::serialize(x).map_err(|e| e.to_string())?;
        bincode::deserialize(&s).map_err(|e| e.to_string())
    }
}

/// The types as users name them: default hash builders, string keys, the crate's strategies.
fn c25_default(c: &mut Case) -> R {
    let json = c.g.chance(1, 2);
    let n = c.g.us(0, 30);
    let mut r = Sm::new(c.g.seed());
    let keys: Vec<String> = (0..n).map(|_| format!("key {}", r.below(1000))).collect();
    let probes: Vec<String> = (0..60).map(|_| format!("key {}", r.below(1000))).collect();
    let size = c.g.us(10, 60);
    let which = c.g.idx(14);
    tr!(c, "type {} json {} size {} keys {:?}", which, json, size, keys);
    macro_rules! set {
        ($e:expr) => {{
            let mut f = $e;
            for k in &keys {
                f.insert(k.as_str());
            }
            let mut g = bin(json, &f)?;
            for k in keys.iter().chain(&probes) {
                ensure_eq!(f.contains(k), g.contains(k.as_str()), "answer for {}", k);
            }
            (f, g)
        }};
    }
    match which {
        0 => {
            let (f, g) = set!(BloomFilter::<String>::new(size, 0.01));
            ensure!(f == g, "restored Bloom filter is not equal");
            ensure_eq!(f.hashers(), g.hashers(), "hash builders");
        }
        1 => {
            let (f, g) = set!(PartitionedBloomFilter::<String>::from_item_count(size, 0.01));
            ensure_eq!((f.hashers(), f.count_ones()), (g.hashers(), g.count_ones()), "restored");
        }
        2 => {
            let (f, g) = set!(ScalableBloomFilter::<String>::new(size, 0.01, 2.0, 0.5));
            ensure_eq!((f.hashers(), f.count_ones(), f.filter_count()), (g.hashers(), g.count_ones(), g.filter_count()), "restored");
        }
        3 => {
            let (f, g) = set!(BSBloomFilter::<String>::new(size * 10, 0.05));
            ensure_eq!((f.hashers(), f.count_ones()), (g.hashers(), g.count_ones()), "restored");
        }
        4 => {
            let (f, g) = set!(BSSDBloomFilter::<String>::new(size * 10, 0.05));
            ensure_eq!((f.hashers(), f.count_ones()), (g.hashers(), g.count_ones()), "restored");
        }
        5 => {
            let (f, g) = set!(RLBSBloomFilter::<String>::new(size * 10, 0.05));
            ensure_eq!((f.hashers(), f.count_ones()), (g.hashers(), g.count_ones()), "restored");
        }
        6 => {
            let (f, g) = set!(CuckooFilter::<String>::new(size));
            ensure!(f == g, "restored cuckoo filter is not equal");
            ensure_eq!((f.hashers(), f.len()), (g.hashers(), g.len()), "restored");
        }
        7 => {
            let (f, g) = set!(ScalableCuckooFilter::<String>::new(size, 0.01, 2.0, 0.5));
            ensure_eq!((f.hashers(), f.len(), f.filter_count()), (g.hashers(), g.len(), g.filter_count()), "restored");
        }
        8 => {
            let (f, g) = set!(QuotientFilter::<String>::new(6, 10));
            ensure_eq!((f.hasher(), f.len()), (g.hasher(), g.len()), "restored");
        }
        9 | 10 => {
            macro_rules! cm {
                ($s:ty) => {{
                    let mut f = CountMinSketch::<$s, String>::new(5, size);
                    for k in &keys {
                        f.insert(k.as_str(), 3);
                    }
                    let g = bin(json, &f)?;
                    for k in keys.iter().chain(&probes) {
                        ensure_eq!(f.count(k), g.count(k.as_str()), "count of {}", k);
                    }
                    ensure_eq!(f.hashers(), g.hashers(), "hash builders");
                }};
            }
            if which == 9 {
                cm!(CountMinStrategy)
            } else if c.g.chance(1, 2) {
                cm!(CountMeanStrategy)
            } else {
                cm!(CountMedianBiasStrategy)
            }
        }
        11 => {
            let mut f = HyperLogLog::<String>::new(0.1);
            for k in &keys {
                f.insert(k.as_str());
            }
            let g = bin(json, &f)?;
            ensure!(f.len() == g.len() && f.is_empty() == g.is_empty() && f.hasher() == g.hasher(), "restored");
        }
        12 => {
            let f = MinHash::<IntoIter<String>, String>::new(size);
            let g = bin(json, &f)?;
            ensure_eq!((f.hashers(), f.hasher_count()), (g.hashers(), g.hasher_count()), "restored");
            let v = [probes, keys].concat();
            ensure_eq!(f.get_min_hashes(v.clone().into_iter()), g.get_min_hashes(v.into_iter()), "signatures");
        }
        _ => {
            let f = SimHash::<IntoIter<String>, String>::new();
            let g = bin(json, &f)?;
            ensure_eq!(f.hasher(), g.hasher(), "hash builder");
            let v = [probes, keys].concat();
            ensure_eq!(f.get_sim_hash(v.clone().into_iter()), g.get_sim_hash(v.into_iter()), "fingerprints");
            let b = sip(c.g.u64(), c.g.u64());
            let d = bin(json, &b)?;
            ensure!(b == d && hash_of(&b, &"x") == hash_of(&d, &"x"), "restored hash builder {:?}", b);
        }
    }
    if n > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// The generator of a restored collection must still choose at random.
fn c25_random(c: &mut Case) -> R {
    let kind = c.g.of(&[Kind::Bs, Kind::Bssd, Kind::Rlbs, Kind::Cuckoo]);
    c.label(kind_name(kind));
    let hb = good_pair(&mut c.g);
    let binary = !c.g.chance(1, 2);
    let mut s = Sm::new(c.g.seed());
    let mut p = Params { kind, variant: 0, a: 0, b: 1, f: 0.1, growth: 2.0, tight: 0.5, hb };
    let fill;
    if kind == Kind::Cuckoo {
        // 16-bit fingerprints, four entries
        p.variant = 1;
        p.a = 1 << c.g.us(9, 11);
        p.b = 16 | 4 << 8;
        fill = p.a * 3 / 2;
    } else {
        p.a = c.g.us(600, 2000);
        p.f = c.g.unit(0.05, 0.3);
        fill = p.a * 6;
    }
    let mut a = p.build();
    for _ in 0..c.g.us(0, 200) {
        a.apply(&Op::Insert(s.next()));
    }
    let mut b = if binary { a.from_bin(&a.to_bin())? } else { a.from_json(&a.to_json())? };
    tr!(c, "{:?} binary {}: {} more items", p, binary, fill);
    let observe = |f: &mut Box<dyn Coll>, s: &mut Sm| -> f64 {
        for i in 0..fill {
            f.apply(&Op::Insert(s.next()));
            let k = f.counters();
            if kind == Kind::Cuckoo && k[5] > 0 {
                return k[0] as f64 / k[2] as f64;
            }
            if kind == Kind::Cuckoo && i + 1 == fill {
                return 1.0;
            }
        }
        let k = f.counters();
        k[4] as f64 / k[0] as f64
    };
    let (x, y) = (observe(&mut a, &mut s), observe(&mut b, &mut s));
    tr!(c, "original {:.3}, restored {:.3}", x, y);
    if kind == Kind::Cuckoo {
        ensure!(y > 0.9, "the restored filter overflows at a load of {:.3}, the original at {:.3}", y, x);
    } else {
        // a load of at least 600 bits moves by well under this between runs
        ensure!((x - y).abs() < 0.16, "the restored filter settles at a load of {:.3}, the original at {:.3}", y, x);
    }
    c.nontrivial();
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "roundtrip: more than three operations after the round trip; default: at least one key; random, big: all",
        assumptions: &["bincode and serde_json as formats"],
        scenarios: vec![
            Scenario { name: "roundtrip", cases: 89000, thorough: 40, f: c25_roundtrip },
            Scenario { name: "big", cases: 1000, thorough: 40, f: c25_big },
            Scenario { name: "default", cases: 36000, thorough: 40, f: c25_default },
            Scenario { name: "random", cases: 450, thorough: 40, f: c25_random },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C26

fn hash_of<B: BuildHasher, T: Hash>(b: &B, x: &T) -> u64 {
    let mut h = b.build_hasher();
    x.hash(&mut h);
    h.finish()
}

fn c26_reproducible(c: &mut Case) -> R {
    let s = setup(c);
    let mut a = Inst::new(s.p.build());
    // the second one is built with what the first one reports
    let mut p2 = s.p.clone();
    let h = a.c.hashers();
    ensure_eq!(h[..], s.p.hb[..h.len()], "reported hash builders");
    p2.hb[..h.len()].copy_from_slice(&h);
    let mut b = Inst::new(p2.build());
    same(&s.p, &mut a, &mut b, &s.probes, true, "new instances")?;
    let n = c.g.us(1, 60);
    for i in 0..n {
        let op = op_at(c, &s, 1);
        a.apply(&s.p, &op)?;
        b.apply(&s.p, &op)?;
        if i == 0 || i % 5 == 4 {
            // the first insertion leaves no room for chance
            same(&s.p, &mut a, &mut b, &s.probes, i == 0, "equal histories")?;
        }
    }
    same(&s.p, &mut a, &mut b, &s.probes, false, "equal histories")?;
    ensure_eq!(a.c.hashers(), h, "hash builders at the end");
    state_labels(c, &s.p, &a);
    if n > 5 {
        c.nontrivial();
    }
    Ok(())
}

/// Owned and borrowed forms of keys are the same key.
fn c26_borrowed(c: &mut Case) -> R {
    let (h1, h2) = (sip(c.g.seed(), c.g.seed()), sip(c.g.seed(), c.g.seed()));
    let n = c.g.us(1, 25);
    let mut r = Sm::new(c.g.seed());
    let alphabet = ["", "a", "ab", "\u{e9}", "key ", "\0"];
    let keys: Vec<String> = (0..n).map(|_| (0..r.below(5)).map(|_| alphabet[r.below(6) as usize]).collect()).collect();
    let probes: Vec<String> = (0..40).map(|_| (0..r.below(5)).map(|_| alphabet[r.below(6) as usize]).collect()).collect();
    let which = c.g.idx(11);
    tr!(c, "type {} hashers {:?} {:?} keys {:?}", which, h1, h2, keys);
    macro_rules! pair {
        ($mk:expr) => {{
            let (mut f, mut g) = ($mk, $mk);
            for k in &keys {
                f.insert(k);
                g.insert(k.as_str());
            }
            for k in &keys {
                ensure!(f.contains(k.as_str()) && g.contains(k), "{:?} inserted in one form is not found in the other", k);
            }
            for k in keys.iter().chain(&probes) {
                let x = [f.contains(k), f.contains(k.as_str()), g.contains(k), g.contains(k.as_str())];
                ensure!(x.iter().all(|y| *y == x[0]), "answers for {:?} by form: {:?}", k, x);
            }
            (f, g)
        }};
        (rm $mk:expr) => {{
            let (mut f, mut g) = pair!($mk);
            for k in &keys {
                f.remove(k.as_str());
                g.remove(k);
                ensure_eq!(f.contains(k.as_str()), g.contains(k), "answer for {:?} after its removal", k);
            }
            ensure!(f.is_empty() && g.is_empty(), "not empty after removing every key: {} {}", f.len(), g.len());
        }};
    }
    match which {
        0 => {
            pair!(BloomFilter::<String, _>::with_hashers(100, 0.01, [h1, h2]));
        }
        1 => {
            pair!(PartitionedBloomFilter::<String, _>::from_item_count_with_hashers(100, 0.01, [h1, h2]));
        }
        2 => {
            pair!(ScalableBloomFilter::<String, _>::with_hashers(100, 0.01, 2.0, 0.5, [h1, h2]));
        }
        3 => {
            // few items in a large filter: nothing is forgotten except by a stray reset
            let (mut f, mut g) = (
                RLBSBloomFilter::<String, _>::with_hashers(5000, 0.01, [h1, h2]),
                BSBloomFilter::<String, _>::with_hashers(5000, 0.01, [h1, h2]),
            );
            let mut e = BSSDBloomFilter::<String, _>::with_hashers(5000, 0.01, [h1, h2]);
            for k in &keys {
                f.insert(k);
                g.insert(k.as_str());
                e.insert(k.as_str());
                ensure!(f.contains(k.as_str()) && g.contains(k) && e.contains(k), "{:?} inserted in one form is not found in the other", k);
            }
            for k in &probes {
                ensure_eq!((f.contains(k), g.contains(k), e.contains(k)), (f.contains(k.as_str()), g.contains(k.as_str()), e.contains(k.as_str())), "answers for {:?} by form", k);
            }
        }
        4 => pair!(rm CuckooFilter::<String, _>::from_parameters_with_hashers(100, 30, 4, [h1, h2])),
        5 => pair!(rm ScalableCuckooFilter::<String, _>::with_hashers(100, 1e-6, 2.0, 0.5, [h1, h2])),
        6 => pair!(rm QuotientFilter::<String, _>::with_hasher(8, 40, h1)),
        7 => {
            let mk = || CountMinSketch::<CountMinStrategy, String, _>::with_hashers(5, 200, [h1, h2]);
            let (mut f, mut g) = (mk(), mk());
            for k in &keys {
                f.insert(k, 2);
                g.insert(k.as_str(), 2);
                f.remove(k.as_str(), 1);
                g.remove(k, 1);
            }
            for k in keys.iter().chain(&probes) {
                let x = [f.count(k), f.count(k.as_str()), g.count(k), g.count(k.as_str())];
                ensure!(x.iter().all(|y| *y == x[0]), "counts of {:?} by form: {:?}", k, x);
            }
        }
        8 => {
            let mk = || HyperLogLog::<String, _>::with_hasher(0.05, h1);
            let (mut f, mut g) = (mk(), mk());
            for k in &keys {
                f.insert(k);
                g.insert(k.as_str());
            }
            ensure!(f.len() == g.len(), "estimates {} and {} by form of the key", f.len(), g.len());
            for k in &keys {
                f.insert(k.as_str());
            }
            ensure!(f.len() == g.len(), "the other form of the keys changes the estimate");
        }
        9 => {
            // slices of vectors
            let mut f = BloomFilter::<Vec<u8>, _>::with_hashers(100, 0.01, [h1, h2]);
            let mut g = QuotientFilter::<Vec<u8>, _>::with_hasher(8, 40, h1);
            for k in &keys {
                f.insert(k.as_bytes());
                g.insert(&k.as_bytes().to_vec());
                ensure!(f.contains(&k.as_bytes().to_vec()) && g.contains(k.as_bytes()), "{:?} by form", k);
            }
        }
        _ => {
            // boxed and reference-counted keys
            let mut f = CuckooFilter::<Box<str>, _>::with_hashers(100, [h1, h2]);
            let mut g = BloomFilter::<std::rc::Rc<str>, _>::with_hashers(100, 0.01, [h1, h2]);
            for k in &keys {
                f.insert(k.as_str());
                g.insert(&std::rc::Rc::<str>::from(k.as_str()));
                ensure!(f.contains(&k.clone().into_boxed_str()) && g.contains(k.as_str()), "{:?} by form", k);
            }
        }
    }
    if keys.iter().collect::<BTreeSet<_>>().len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn c26_builders(c: &mut Case) -> R {
    let a = (key_half(&mut c.g), key_half(&mut c.g));
    let b = match c.g.weighted(&[2, 2, 2, 2, 1, 2, 1, 1]) {
        5 => (key_half(&mut c.g), key_half(&mut c.g)),
        6 => (a.0, a.0),
        7 => (a.1, a.1),
        0 => (a.0 ^ 1 << c.g.below(64), a.1),
        1 => (a.0, a.1 ^ 1 << c.g.below(64)),
        2 => (a.1, a.0),
        3 => (c.g.u64(), c.g.u64()),
        _ => a,
    };
    tr!(c, "seeds {:?} and {:?}", a, b);
    let (x, y) = (SipHasherBuilder::from_seed(a.0, a.1), SipHasherBuilder::from_seed(b.0, b.1));
    ensure_eq!(x == y, a == b, "equality of builders from {:?} and {:?}", a, b);
    ensure!(x == x && x == SipHasherBuilder::from_seed(a.0, a.1) && (x != y) == (a != b), "builders from equal seeds differ");
    let mut s = Sm::new(c.g.seed());
    for i in 0..8 {
        let key: String = (0..i * 3).map(|_| (b'a' + s.below(26) as u8) as char).collect();
        let n = s.next();
        let (p, q) = ((hash_of(&x, &key), hash_of(&x, &n)), (hash_of(&y, &key), hash_of(&y, &n)));
        ensure_eq!(p, (hash_of(&x, &key.as_str()), hash_of(&x.clone(), &n)), "hashes of one builder");
        ensure!((p.0 == q.0) == (a == b) && (p.1 == q.1) == (a == b), "hashes {:?} and {:?} of {:?} under seeds {:?} and {:?}", p, q, key, a, b);
        ensure!(hash_of(&x, &key) != hash_of(&x, &format!("{}x", key)), "different keys hash alike");
    }
    // each half of the seed reaches all of the hash
    c.label_if(a == b, "equal seeds");
    if a != b {
        c.nontrivial();
    }
    Ok(())
}

fn c26_entropy(c: &mut Case) -> R {
    let which = c.g.idx(19);
    let n = c.g.us(1, 200);
    tr!(c, "constructor {} n {}", which, n);
    macro_rules! hs {
        ($e:expr) => {
            $e.hashers().to_vec()
        };
    }
    let make = || -> Vec<SipHasherBuilder> {
        match which {
            0 => hs!(BloomFilter::<String>::new(n, 0.01)),
            1 => hs!(BloomFilter::<String>::from_item_count(n * 10, n)),
            2 => hs!(BloomFilter::<String>::from_fpp(n * 10, 0.01)),
            3 => hs!(PartitionedBloomFilter::<String>::from_item_count(n, 0.01)),
            4 => hs!(PartitionedBloomFilter::<String>::from_bit_count(n, 0.01)),
            5 => hs!(ScalableBloomFilter::<String>::new(n, 0.01, 2.0, 0.5)),
            6 => hs!(BSBloomFilter::<String>::new(n, 0.05)),
            7 => hs!(BSSDBloomFilter::<String>::new(n, 0.05)),
            8 => hs!(RLBSBloomFilter::<String>::new(n, 0.05)),
            9 => hs!(CuckooFilter::<String>::new(n)),
            10 => hs!(CuckooFilter::<String>::from_parameters(n, 8, 4)),
            11 => hs!(CuckooFilter::<String>::from_entries_per_index(n, 0.01, 4)),
            12 => hs!(CuckooFilter::<String>::from_fingerprint_bit_count(n, 0.01, 12)),
            13 => hs!(ScalableCuckooFilter::<String>::new(n, 0.01, 2.0, 0.5)),
            14 => hs!(ScalableCuckooFilter::<String>::from_entries_per_index(n, 0.01, 4, 2.0, 0.5)),
            15 => hs!(CountMinSketch::<CountMinStrategy, String>::new(3, n)),
            16 => hs!(CountMinSketch::<CountMinStrategy, String>::from_error(0.1, 0.1)),
            17 => hs!(MinHash::<IntoIter<String>, String>::new(n)),
            _ => vec![
                *QuotientFilter::<String>::new(4, 4).hasher(),
                *QuotientFilter::<String>::from_fpp(n, 0.1).hasher(),
                *HyperLogLog::<String>::new(0.1).hasher(),
                *SimHash::<IntoIter<String>, String>::new().hasher(),
                *SimHash::<IntoIter<String>, String>::default().hasher(),
                SipHasherBuilder::from_entropy(),
            ],
        }
    };
    let mut all = make();
    all.extend(make());
    all.extend(make());
    for i in 0..all.len() {
        for j in 0..i {
            ensure!(all[i] != all[j], "hash builders {} and {} of constructor {} are equal: {:?}", j, i, which, all[i]);
            ensure!(hash_of(&all[i], &"x") != hash_of(&all[j], &"x"), "hash builders {} and {} hash alike", j, i);
        }
    }
    c.nontrivial();
    Ok(())
}

/// A collection from an entropy constructor behaves as its seeded twin.
fn twins<T: Serialize>(c: &mut Case, mut a: T, mut b: T, random: bool, step: impl Fn(&mut T, u64, u64)) -> R {
    let bytes = |x: &T| bincode::serialize(x).unwrap();
    ensure!(bytes(&a) == bytes(&b), "an entropy constructor makes another collection than the seeded one with its hash builders");
    let n = c.g.us(1, 80);
    let mut s = Sm::new(c.g.seed());
    for i in 0..n {
        // one insertion leaves no room for chance; later, only deterministic collections can be compared
        let (op, k) = (if i == 0 { 0 } else { s.below(12) }, s.below(40));
        step(&mut a, op, k);
        step(&mut b, op, k);
        ensure!(i > 0 && random || bytes(&a) == bytes(&b), "a collection built from entropy and its seeded twin differ after step {}", i);
    }
    if random {
        step(&mut a, 11, 0);
        step(&mut b, 11, 0);
        ensure!(bytes(&a) == bytes(&b), "a cleared collection built from entropy and its seeded twin differ");
    }
    if n > 5 {
        c.nontrivial();
    }
    Ok(())
}

fn c26_twins(c: &mut Case) -> R {
    let which = c.g.idx(22);
    let n = c.g.us(1, 60);
    let fpp = c.g.flog(1e-6, 0.5);
    let e = c.g.us(1, 5);
    let growth = if c.g.chance(1, 2) { 1.0 } else { c.g.unit(1.0, 3.0) };
    let tight = c.g.unit(0.1, 1.0);
    tr!(c, "constructor {} n {} fpp {} e {} growth {} tightening {}", which, n, fpp, e, growth, tight);
    type B2 = SipHasherBuilder;
    macro_rules! filter {
        ($random:expr, $a:expr, $b:expr $(, $remove:ident)?) => {{
            let a = $a;
            let h: [B2; 2] = *a.hashers();
            let b = $b(h);
            twins(c, a, b, $random, |x, op, k| match op {
                11 => x.clear(),
                $(8..=10 => x.$remove(&k),)?
                _ => x.insert(&k),
            })
        }};
    }
    // a scalable cuckoo filter whose layers are single buckets never has to choose
    match which {
        0 => filter!(false, BloomFilter::<u64>::new(n, fpp), |h| BloomFilter::<u64>::with_hashers(n, fpp, h)),
        1 => filter!(false, BloomFilter::<u64>::from_item_count(n * e, n), |h| BloomFilter::<u64>::from_item_count_with_hashers(n * e, n, h)),
        2 => filter!(false, BloomFilter::<u64>::from_fpp(n, fpp), |h| BloomFilter::<u64>::from_fpp_with_hashers(n, fpp, h)),
        3 => filter!(false, PartitionedBloomFilter::<u64>::from_item_count(n, fpp), |h| {
            PartitionedBloomFilter::<u64>::from_item_count_with_hashers(n, fpp, h)
        }),
        4 => filter!(false, PartitionedBloomFilter::<u64>::from_bit_count(n, fpp), |h| {
            PartitionedBloomFilter::<u64>::from_bit_count_with_hashers(n, fpp, h)
        }),
        5 | 6 => filter!(false, ScalableBloomFilter::<u64>::new(n, fpp, growth, tight), |h| {
            ScalableBloomFilter::<u64>::with_hashers(n, fpp, growth, tight, h)
        }),
        7 => filter!(true, BSBloomFilter::<u64>::new(n, fpp), |h| BSBloomFilter::<u64>::with_hashers(n, fpp, h)),
        8 => filter!(true, BSSDBloomFilter::<u64>::new(n, fpp), |h| BSSDBloomFilter::<u64>::with_hashers(n, fpp, h)),
        9 => filter!(true, RLBSBloomFilter::<u64>::new(n, fpp), |h| RLBSBloomFilter::<u64>::with_hashers(n, fpp, h)),
        10 => filter!(true, CuckooFilter::<u64>::new(n), |h| CuckooFilter::<u64>::with_hashers(n, h), remove),
        11 => filter!(true, CuckooFilter::<u64>::from_parameters(n, 4 + e, e), |h| {
            CuckooFilter::<u64>::from_parameters_with_hashers(n, 4 + e, e, h)
        }, remove),
        12 => filter!(true, CuckooFilter::<u64>::from_entries_per_index(n, fpp, e), |h| {
            CuckooFilter::<u64>::from_entries_per_index_with_hashers(n, fpp, e, h)
        }, remove),
        13 => filter!(true, CuckooFilter::<u64>::from_fingerprint_bit_count(n, fpp, 24), |h| {
            CuckooFilter::<u64>::from_fingerprint_bit_count_with_hashers(n, fpp, 24, h)
        }, remove),
        14 | 15 => {
            let n = if growth == 1.0 { 1 + n % 4 } else { n };
            filter!(growth > 1.0, ScalableCuckooFilter::<u64>::new(n, fpp, growth, tight), |h| {
                ScalableCuckooFilter::<u64>::with_hashers(n, fpp, growth, tight, h)
            }, remove)
        }
        16 | 17 => {
            let n = if growth == 1.0 { 1 + n % e } else { n };
            filter!(growth > 1.0, ScalableCuckooFilter::<u64>::from_entries_per_index(n, fpp, e, growth, tight), |h| {
                ScalableCuckooFilter::<u64>::from_entries_per_index_with_hashers(n, fpp, e, growth, tight, h)
            }, remove)
        }
        18 | 19 => {
            let step = |x: &mut CountMinSketch<CountMinStrategy, u64>, op: u64, k: u64| match op {
                11 => x.clear(),
                8..=10 => x.remove(&k, k as i64),
                _ => x.insert(&k, k as i64 - 3),
            };
            if which == 18 {
                let a = CountMinSketch::new(e, n);
                let h = *a.hashers();
                twins(c, a, CountMinSketch::with_hashers(e, n, h), false, step)
            } else {
                let (eps, delta) = (2.7 / n as f64, fpp);
                let a = CountMinSketch::from_error(eps, delta);
                let h = *a.hashers();
                twins(c, a, CountMinSketch::from_error_with_hashers(eps, delta, h), false, step)
            }
        }
        20 => {
            let step = |x: &mut HyperLogLog<u64>, op: u64, k: u64| if op == 11 { x.clear() } else { x.insert(&k) };
            let err = c.g.flog(0.02, 0.9);
            let a = HyperLogLog::new(err);
            let h = *a.hasher();
            twins(c, a, HyperLogLog::with_hasher(err, h), false, step)
        }
        _ => {
            let step = |x: &mut QuotientFilter<u64>, op: u64, k: u64| match op {
                11 => x.clear(),
                8..=10 => x.remove(&k),
                _ => x.insert(&k),
            };
            let a = QuotientFilter::<u64>::from_fpp(60, fpp);
            let h = *a.hasher();
            twins(c, a, QuotientFilter::from_fpp_with_hasher(60, fpp, h), false, step)?;
            let a = QuotientFilter::<u64>::new(6, 1 + (n % 58) as u8);
            let h = *a.hasher();
            twins(c, a, QuotientFilter::with_hasher(6, 1 + (n % 58) as u8, h), false, step)
        }
    }
}

/// Every bit of the two keys of a builder is drawn, and drawn on its own.
fn c26_keys(c: &mut Case) -> R {
    let from = c.g.idx(4);
    let key = |b: &SipHasherBuilder| {
        let v = serde_json::to_value(b).ok()?;
        Some([v.get("k0")?.as_u64()?, v.get("k1")?.as_u64()?])
    };
    let mut words: Vec<Vec<u64>> = vec![];
    for _ in 0..100 {
        let h = match from {
            0 => BloomFilter::<u64>::new(10, 0.1).hashers().to_vec(),
            1 => CountMinSketch::<CountMinStrategy, u64>::new(1, 2).hashers().to_vec(),
            2 => CuckooFilter::<u64>::new(10).hashers().to_vec(),
            _ => vec![SipHasherBuilder::from_entropy(), *HyperLogLog::<u64>::new(0.5).hasher()],
        };
        let (Some(x), Some(y)) = (key(&h[0]), key(&h[1])) else {
            c.label("keys not visible");
            return Ok(());
        };
        let k = [x[0], x[1], y[0], y[1]];
        let mut w = k.to_vec();
        // one key against another
        for i in 0..4 {
            for j in 0..i {
                w.push(k[i] ^ k[j]);
                w.push(k[i].wrapping_sub(k[j]));
            }
        }
        words.push(w);
    }
    for i in 0..words[0].len() {
        let (and, or) = words.iter().fold((!0, 0), |(a, o), w| (a & w[i], o | w[i]));
        ensure!(and == 0 && or == !0, "bits {:x} of the keys (word {}) never vary over 100 builders made from entropy", and | !or, i);
    }
    c.nontrivial();
    Ok(())
}

/// Two large collections with equal parameters, hash builders and contents.
fn c26_big(c: &mut Case) -> R {
    let (p, n) = big(c);
    let (seed, mut r) = (c.g.seed(), Sm::new(c.g.seed()));
    let mut a = Inst::new(p.build());
    fill(&p, &mut a, n, &mut Sm::new(seed))?;
    let probes = big_probes(seed, n, &mut r);
    if c.g.chance(1, 2) {
        // a used neighbour must not matter
        let mut q = gen_params(&mut c.g, p.kind, 3000);
        q.hb = good_pair(&mut c.g);
        let mut u = q.build();
        (0..200).for_each(|_| u.apply(&Op::Insert(r.next())));
        drop(u.answers(&probes));
    }
    let ent = c.g.chance(1, 2).then(|| c.g.seed());
    let mut b = Inst::new(p.build());
    if let Some(e) = ent {
        getrandom::det_seed(e);
    }
    fill(&p, &mut b, n, &mut Sm::new(seed))?;
    same(&p, &mut a, &mut b, &probes, false, "two instances with the same history")?;
    ensure_eq!(a.c.hashers(), b.c.hashers(), "hash builders");
    if !p.has_rng() {
        let bytes = a.c.to_bin();
        ensure!(bytes == b.c.to_bin(), "two instances with the same history have other bytes");
        c.label_if(bytes.len() > 70_000, "more than 70000 bytes");
    }
    c.nontrivial();
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "reproducible: more than five operations; borrowed: two different keys; builders: different seeds; entropy, keys, big: all; twins: more than five operations",
        assumptions: &["getrandom is replaced by a deterministic stream of distinct values"],
        scenarios: vec![
            Scenario { name: "reproducible", cases: 107000, thorough: 40, f: c26_reproducible },
            Scenario { name: "borrowed", cases: 54000, thorough: 40, f: c26_borrowed },
            Scenario { name: "builders", cases: 54000, thorough: 40, f: c26_builders },
            Scenario { name: "entropy", cases: 6000, thorough: 40, f: c26_entropy },
            Scenario { name: "twins", cases: 60000, thorough: 40, f: c26_twins },
            Scenario { name: "keys", cases: 1500, thorough: 40, f: c26_keys },
            Scenario { name: "big", cases: 2000, thorough: 40, f: c26_big },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C27

fn c27_clear(c: &mut Case) -> R {
    let s = setup(c);
    let mut a = Inst::new(s.p.build());
    let rounds = c.g.us(1, 3);
    for _ in 0..rounds {
        history(c, &s, &mut a, 0)?;
        if c.g.chance(1, 8) {
            // through a clone or a copy restored from its bytes
            a.c = if c.g.chance(1, 2) { a.c.boxed() } else { a.c.from_bin(&a.c.to_bin())? };
            c.label("cleared copy");
        }
        tr!(c, "clear");
        a.apply(&s.p, &Op::Clear)?;
        if c.g.chance(1, 6) {
            a.apply(&s.p, &Op::Clear)?;
        }
        let mut b = Inst::new(s.p.build());
        same(&s.p, &mut a, &mut b, &s.probes, true, "cleared and new")?;
        ensure_eq!(a.c.hashers(), b.c.hashers(), "hash builders");
        let bulk = if c.g.chance(1, 3) { c.g.us(0, 300) } else { 0 };
        tr!(c, "then {} random items", bulk);
        let mut r = Sm::new(c.g.seed());
        for i in 0..bulk {
            let op = Op::Insert(r.next());
            a.apply(&s.p, &op)?;
            b.apply(&s.p, &op)?;
            if i == 0 || i % 32 == 31 {
                same(&s.p, &mut a, &mut b, &s.probes, i == 0, "filling the cleared and the new one")?;
            }
        }
        let n = c.g.us(1, 30);
        for i in 0..n {
            let op = op_at(c, &s, 0);
            a.apply(&s.p, &op)?;
            b.apply(&s.p, &op)?;
            if i == 0 || i % 4 == 3 {
                same(&s.p, &mut a, &mut b, &s.probes, i == 0 && bulk == 0, "histories of the cleared and the new one")?;
            }
        }
        same(&s.p, &mut a, &mut b, &s.probes, false, "histories of the cleared and the new one")?;
        state_labels(c, &s.p, &b);
    }
    c.nontrivial();
    Ok(())
}

/// Random choices after `clear` are as good as those of a new collection.
fn c27_random(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let (n, e) = (1usize << c.g.us(9, 11), c.g.us(4, 8));
    let mut f = CuckooFilter::<u64, HB>::from_parameters_with_hashers(n, 20, e, hb);
    let mut s = Sm::new(c.g.seed());
    let rounds = c.g.us(1, 4);
    for round in 0..rounds {
        let limit = if round + 1 == rounds { usize::MAX } else { c.g.us(0, n * 3 / 2) };
        let mut i = 0;
        while f.extra_items_len() == 0 && i < limit {
            f.insert(&s.next());
            i += 1;
        }
        if round + 1 == rounds {
            let load = f.len() as f64 / f.capacity() as f64;
            tr!(c, "{} slots, {} per bucket: overflow at {:.3} after {} rounds", f.capacity(), e, load, round);
            ensure!(load > 0.9, "overflow at a load of {:.3} after {} rounds of filling and clearing", load, round);
        }
        f.clear();
        ensure!(f.is_empty() && f.len() == 0 && f.extra_items_len() == 0 && !f.is_nearly_full(), "not empty after clear");
    }
    c.nontrivial();
    Ok(())
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "all",
        assumptions: &["random choices of cuckoo and stream filters after clear are compared by what they leave determined"],
        scenarios: vec![
            Scenario { name: "clear", cases: 30000, thorough: 40, f: c27_clear },
            Scenario { name: "big", cases: 1000, thorough: 40, f: c27_big },
            Scenario { name: "random", cases: 180, thorough: 40, f: c27_random },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C28

fn c28_clone(c: &mut Case) -> R {
    let s = setup(c);
    let mut a = Inst::new(s.p.build());
    history(c, &s, &mut a, 1)?;
    let via = c.g.idx(3);
    let copy = match via {
        0 => a.c.boxed(),
        1 => a.c.boxed().boxed(),
        _ => {
            // over an instance of other parameters and contents
            let other = gen_params(&mut c.g, s.p.kind, 30);
            let mut u = Inst::new(other.build());
            history(c, &s, &mut u, 1)?;
            a.c.clone_into_used(u.c.as_mut());
            u.c
        }
    };
    tr!(c, "clone {}", via);
    c.label(["clone", "clone of a clone", "clone_from"][via]);
    let mut b = Inst { c: copy, live: a.live.clone() };
    ensure!(a.c.to_bin() == b.c.to_bin(), "the clone has another serialised form");
    ensure_eq!(a.c.hashers(), b.c.hashers(), "hash builders");
    same(&s.p, &mut a, &mut b, &s.probes, true, "clone")?;
    let mut only = 0;
    // a layer that is made later draws its own random choices
    let layers = |i: &Inst| if s.p.kind == Kind::ScalableCuckoo { i.ctr(4) } else { 0 };
    let mut base = layers(&a);
    let mut own_layers = false;
    let rounds = c.g.us(1, 4);
    for _ in 0..rounds {
        // the same on both, random choices included
        let n = c.g.us(0, 20);
        let bulk = if c.g.chance(1, 3) { c.g.us(0, 150) } else { 0 };
        let mut r = Sm::new(c.g.seed());
        for _ in 0..bulk {
            let op = Op::Insert(r.next());
            a.apply(&s.p, &op)?;
            b.apply(&s.p, &op)?;
            own_layers |= layers(&a) != base || layers(&b) != base;
        }
        for i in 0..n {
            let op = op_at(c, &s, 1);
            a.apply(&s.p, &op)?;
            b.apply(&s.p, &op)?;
            own_layers |= layers(&a) != base || layers(&b) != base;
            own_layers |= op == Op::Clear && s.p.kind == Kind::ScalableCuckoo;
            if i % 4 == 3 {
                let exact = only == 0 && !own_layers;
                same(&s.p, &mut a, &mut b, &s.probes, exact, "clone and original under equal operations")?;
            }
        }
        if own_layers {
            only += 1;
            c.label("layers made since the clone");
            same(&s.p, &mut a, &mut b, &s.probes, false, "clone and original under equal operations")?;
        }
        if only == 0 {
            same(&s.p, &mut a, &mut b, &s.probes, true, "clone and original under equal operations")?;
            ensure!(a.c.to_bin() == b.c.to_bin(), "clone and original end with other bytes after equal operations");
        }
        // only on one of them
        if c.g.chance(1, 2) {
            only += 1;
            let first = c.g.chance(1, 2);
            let (x, y) = if first { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let (bytes, ans, ctr) = (y.c.to_bin(), y.c.answers(&s.probes), y.c.counters());
            let n = c.g.us(1, 15);
            for _ in 0..n {
                let op = op_at(c, &s, 1);
                x.apply(&s.p, &op)?;
            }
            ensure_eq!(y.c.answers(&s.probes), ans, "answers of the {} after operations on the other", if first { "clone" } else { "original" });
            ensure_eq!(y.c.counters(), ctr, "counters after operations on the other");
            ensure!(y.c.to_bin() == bytes, "bytes after operations on the other");
            // bring them together again
            if c.g.chance(1, 2) {
                a.live = b.live.clone();
                a.c = b.c.boxed();
                base = layers(&a);
                own_layers = false;
                only = 0;
            } else {
                return finish(c, &s, a, b);
            }
        }
    }
    state_labels(c, &s.p, &a);
    c.nontrivial();
    Ok(())
}
/// Apart from each other now: each keeps its own items.
fn finish(c: &mut Case, s: &Setup, mut a: Inst, mut b: Inst) -> R {
    for i in 0..10 {
        let op = op_at(c, s, 0);
        if i % 2 == 0 { a.apply(&s.p, &op)? } else { b.apply(&s.p, &op)? }
        a.check("original")?;
        b.check("clone")?;
    }
    c.label("separate histories");
    c.nontrivial();
    Ok(())
}

/// Equality of the types that have it, and clones of those that are not collections.
fn c28_equality(c: &mut Case) -> R {
    let h = [sip(c.g.seed(), c.g.seed()), sip(c.g.seed(), c.g.seed())];
    let n = c.g.us(1, 20);
    let keys = pool(&mut c.g, n);
    let (na, nb) = (c.g.us(0, 25), c.g.us(0, 25));
    let x: Vec<u64> = (0..na).map(|_| *c.g.pick(&keys)).collect();
    let y: Vec<u64> = if c.g.chance(1, 2) {
        let mut y: Vec<u64> = x.iter().chain(&x).copied().collect();
        Sm::new(c.g.seed()).shuffle(&mut y);
        y
    } else {
        (0..nb).map(|_| *c.g.pick(&keys)).collect()
    };
    let size = c.g.us(1, 40);
    let k2 = if c.g.chance(1, 4) { [h[0], sip(c.g.u64(), 1)] } else { h };
    tr!(c, "size {} X {:?} Y {:?} other builders {}", size, x, y, k2 != h);
    let eqset = x.iter().collect::<BTreeSet<_>>() == y.iter().collect();
    {
        let mk = |k, v: &[u64]| {
            let mut f = BloomFilter::<u64, _>::with_hashers(size, 0.05, k);
            v.iter().for_each(|i| f.insert(i));
            f
        };
        let (f, g) = (mk(h, &x), mk(k2, &y));
        ensure!(f == f.clone() && !(f != f.clone()), "a clone is not equal");
        if eqset && k2 == h {
            ensure!(f == g, "Bloom filters of equal items differ");
        }
        if k2 != h {
            ensure!(f != g, "Bloom filters of other hash builders are equal");
        } else {
            let differ = keys.iter().any(|k| f.contains(k) != g.contains(k)) || f.count_ones() != g.count_ones();
            ensure!(!(differ && f == g), "Bloom filters that answer differently are equal");
            ensure_eq!(f == g, bincode::serialize(&f).unwrap() == bincode::serialize(&g).unwrap(), "equality and equal contents");
        }
        let mut d = f.clone();
        d.clear();
        ensure_eq!(d == f, f.count_ones() == 0, "equality with a cleared clone");
    }
    {
        let mk = |k, v: &[u64]| {
            let mut f = CuckooFilter::<u64>::from_parameters_with_hashers(size * 4, 24, 4, k);
            v.iter().for_each(|i| f.insert(i));
            f
        };
        let (f, g) = (mk(h, &x), mk(k2, &x));
        ensure!(f == f.clone() && !(f != f.clone()), "a clone is not equal");
        ensure!(k2 == h || f != g, "cuckoo filters of other hash builders are equal");
        let mut d = f.clone();
        let fresh = keys.iter().find(|k| !f.contains(*k));
        if let Some(k) = fresh {
            d.insert(k);
            ensure!(d != f, "cuckoo filters of different contents are equal");
        }
        let mut d = f.clone();
        d.clear();
        ensure_eq!(d == f, f.is_empty(), "equality with a cleared clone");
    }
    if n > 1 && !x.is_empty() {
        let k = c.g.us(1, 20);
        let f = MinHash::<IntoIter<u64>, u64, SipHasherBuilder>::with_hashers(k, h);
        let g = f.clone();
        ensure_eq!((f.hashers(), f.hasher_count()), (g.hashers(), g.hasher_count()), "clone of a MinHash");
        ensure_eq!(f.get_min_hashes(x.clone().into_iter()), g.get_min_hashes(x.clone().into_iter()), "clone of a MinHash");
        let f = SimHash::<IntoIter<u64>, u64, SipHasherBuilder>::with_hasher(h[0]);
        let g = f.clone();
        ensure_eq!(f.hasher(), g.hasher(), "clone of a SimHash");
        ensure_eq!(f.get_sim_hash(x.clone().into_iter()), g.get_sim_hash(x.into_iter()), "clone of a SimHash");
        c.nontrivial();
    }
    c.label_if(eqset, "equal sets");
    c.label_if(k2 != h, "other hash builders");
    Ok(())
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "clone, big: all; equality: at least two keys and one item",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "clone", cases: 46000, thorough: 40, f: c28_clone },
            Scenario { name: "big", cases: 1000, thorough: 40, f: c28_big },
            Scenario { name: "equality", cases: 18000, thorough: 40, f: c28_equality },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C30

/// Bytes of one array besides its elements, of the scalars, and of the hash builders.
fn overhead(p: &Params, c: &dyn Coll) -> f64 {
    let h: f64 = c.hashers().iter().map(|b| bincode::serialized_size(b).unwrap() as f64).sum();
    h * match p.kind {
        // one pair per layer
        Kind::ScalableBloom => c.counters()[2] as f64,
        _ => 1.0,
    }
}

/// Serialised size against the nominal storage.
fn judge_size(p: &Params, a: &Inst, what: &str) -> R {
    let got = a.c.to_bin().len() as f64 - overhead(p, a.c.as_ref());
    let k = a.c.counters();
    let (nominal, slack) = match p.kind {
        Kind::Bloom | Kind::Partitioned => (k[0] as f64 / 8.0, 60.0),
        // a vector of bit arrays
        Kind::Bs | Kind::Bssd | Kind::Rlbs => (k[0] as f64 / 8.0, 60.0 + 33.0 * k[3] as f64),
        Kind::ScalableBloom => (k[0] as f64 / 8.0, 80.0 + 80.0 * k[2] as f64),
        Kind::Cuckoo => ((k[2] * k[7]) as f64 / 8.0 + 16.0 * k[5] as f64, 80.0),
        Kind::ScalableCuckoo => return Ok(()),
        Kind::Quotient => ((k[4] as f64 + 3.0) * 2f64.powi(k[3] as i32) / 8.0, 80.0),
        Kind::CmMin | Kind::CmMean | Kind::CmMedian => ((k[0] * k[1] * 8) as f64, 60.0),
        Kind::Hll => {
            let m = (1.04 / p.f).powi(2).log2().ceil().exp2();
            // next to a power of two the rounding may go either way
            let near = ((1.04 / p.f).powi(2).log2() - m.log2()).abs() < 1e-9 || ((1.04 / p.f).powi(2).log2() - m.log2() + 1.0).abs() < 1e-9;
            if near {
                return Ok(());
            }
            (m, 40.0)
        }
    };
    ensure!(got >= nominal - 1.0 && got <= nominal + slack, "{}: {} bytes without the hash builders for a nominal {:.1} ({:?})", what, got, nominal, p);
    Ok(())
}

fn c30_size(c: &mut Case) -> R {
    let mut s = setup(c);
    if c.g.chance(1, 4) {
        // larger ones, where the constant part is negligible
        s.p = gen_params(&mut c.g, s.p.kind, 5000);
        c.label("large");
    }
    let mut a = Inst::new(s.p.build());
    let size = |a: &Inst| a.c.to_bin().len() as f64;
    let empty = size(&a);
    let judge = |a: &Inst, what: &str| judge_size(&s.p, a, what);
    judge(&a, "empty")?;
    for _ in 0..c.g.us(1, 3) {
        history(c, &s, &mut a, 1)?;
        judge(&a, "used")?;
        let now = size(&a);
        match s.p.kind {
            Kind::Cuckoo => {
                let extra = a.ctr(5) as f64;
                ensure!(now == empty + 16.0 * extra, "{} bytes with {} overflow entries, {} when empty", now, extra, empty);
            }
            Kind::ScalableBloom | Kind::ScalableCuckoo => {
                if a.ctr(if s.p.kind == Kind::ScalableBloom { 2 } else { 4 }) == 1 && s.p.kind == Kind::ScalableBloom {
                    ensure!(now == empty, "{} bytes with one layer, {} when empty", now, empty);
                }
            }
            _ => ensure!(now == empty, "{} bytes, {} when empty", now, empty),
        }
    }
    tr!(c, "{} bytes empty, {} used", empty, size(&a));
    if size(&a) > 300.0 {
        c.nontrivial();
    }
    Ok(())
}

/// Large collections: nothing proportional may be added to the nominal storage.
fn c30_big(c: &mut Case) -> R {
    let kind = KINDS[c.g.idx(KINDS.len())];
    c.label(kind_name(kind));
    let scale = c.g.logu(50_000, 1_500_000);
    let p = gen_params(&mut c.g, kind, scale);
    let before = crate::heap::live();
    let a = Inst::new(p.build());
    let held = crate::heap::live() - before;
    let ser = a.c.to_bin().len() as i64;
    tr!(c, "{:?}: {} bytes, {} on the heap", p, ser, held);
    judge_size(&p, &a, "empty")?;
    let parts = if matches!(kind, Kind::Rlbs) { a.ctr(3) as i64 } else { 1 };
    ensure!(held <= ser * 5 / 4 + 2000 + 200 * parts, "{} bytes on the heap when new, with a serialised size of {} ({:?})", held, ser, p);
    if a.c.to_bin().len() > 5000 {
        c.nontrivial();
    }
    Ok(())
}

/// Bytes really held on the heap: of the order of the serialised size at any time, whatever was done.
fn c30_heap(c: &mut Case) -> R {
    let s = setup(c);
    // drawn before the measurement: the recorded choices are on the heap too
    let rounds: Vec<(usize, u64, bool, bool)> = (0..c.g.us(1, 4)).map(|_| (c.g.logu(1, 6000), c.g.seed(), c.g.chance(1, 2), c.g.chance(1, 3))).collect();
    let before = crate::heap::live();
    let mut a = Inst::new(s.p.build());
    let held = |a: &Inst| crate::heap::live() - before - a.live.len() as i64 * 40;
    // vectors keep their capacity when overflow entries go
    let mut most = 0;
    let mut judge = |a: &Inst, what: &str| -> R {
        let h = held(a);
        let ser = a.c.to_bin().len() as i64;
        let extra = if s.p.kind == Kind::Cuckoo { 16 * a.ctr(5) as i64 } else { 0 };
        most = most.max(extra);
        let layers = match s.p.kind {
            Kind::ScalableBloom => a.ctr(2) as i64,
            Kind::ScalableCuckoo => a.ctr(4) as i64,
            Kind::Bs | Kind::Bssd | Kind::Rlbs => a.ctr(3) as i64,
            _ => 1,
        };
        let lim = (ser - extra) * 5 / 4 + most * 11 / 5 + 1200 + 800 * layers;
        ensure!(h <= lim, "{}: {} bytes on the heap with a serialised size of {} ({:?})", what, h, ser, s.p);
        Ok(())
    };
    judge(&a, "empty")?;
    let base = held(&a);
    for &(n, seed, wide, clear) in &rounds {
        // overflow entries are searched linearly and scalable filters grow
        let n = if s.p.kind == Kind::Cuckoo || s.p.is_scalable() { n.min(500) } else { n };
        let mut r = Sm::new(seed);
        for i in 0..n {
            let k = if wide { r.next() } else { s.keys[r.below(s.keys.len() as u64) as usize] };
            if s.p.kind == Kind::Cuckoo && i % 16 == 0 {
                judge(&a, "used")?;
            }
            let op = match r.below(16) {
                0..=10 => Op::Insert(k),
                11..=13 if s.p.has_remove() => Op::Remove(k),
                _ => {
                    let _ = a.c.answers(&[k]);
                    continue;
                }
            };
            a.apply(&s.p, &op)?;
            if i % 512 == 511 {
                judge(&a, "used")?;
            }
        }
        judge(&a, "used")?;
        if clear {
            a.apply(&s.p, &Op::Clear)?;
            let h = held(&a);
            let lim = if s.p.kind == Kind::Cuckoo || s.p.is_scalable() { i64::MAX } else { base * 11 / 10 + 600 };
            ensure!(h <= lim, "{} bytes on the heap after clear, {} when new ({:?})", h, base, s.p);
        }
    }
    tr!(c, "{} bytes new, {} at the end", base, held(&a));
    c.nontrivial();
    Ok(())
}

/// Scalable cuckoo filters: the layers' slots at the layers' fingerprint widths.
fn c30_scalable_cuckoo(c: &mut Case) -> R {
    let hb = [HB::Mix(c.g.seed()), HB::Sip(sip(c.g.seed(), c.g.seed()))];
    let (n, e) = (c.g.us(1, 80), c.g.us(2, 6));
    let (fpp, growth, tight) = (c.g.flog(1e-4, 0.5), c.g.unit(1.0, 3.0), c.g.unit(0.3, 1.0));
    let items = c.g.us(0, 600);
    let mut f = ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, fpp, e, growth, tight, hb);
    let mut s = Sm::new(c.g.seed());
    tr!(c, "n {} e {} fpp {} growth {} tightening {}: {} items", n, e, fpp, growth, tight, items);
    let one = |i: usize| {
        // the layers' widths follow from the public single filter with the tightened probability
        let p = fpp * tight.powi(i as i32);
        CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(1, p, e, hb).fingerprint_bit_count()
    };
    let check = |f: &ScalableCuckooFilter<u64, HB>| -> R {
        let size = bincode::serialized_size(f).unwrap() as f64;
        let layers = f.filter_count();
        let (lo, hi) = (one(0).min(one(layers - 1)), one(0).max(one(layers - 1)) + 1);
        let hbs: f64 = hb.iter().map(|b| bincode::serialized_size(b).unwrap() as f64).sum();
        let cap = f.capacity() as f64;
        let body = size - hbs * layers as f64;
        let min = cap * lo as f64 / 8.0;
        // overflow entries: at most one per full layer, a few when a last layer is overfilled
        let max = cap * hi as f64 / 8.0 + (hbs + 160.0) * (layers + 1) as f64;
        ensure!(body >= min - 1.0 && body <= max, "{} layers with {} slots of {} to {} bits: {} bytes, expected {:.0} to {:.0}", layers, cap, lo, hi, body, min, max);
        Ok(())
    };
    check(&f)?;
    for i in 0..items {
        if f.capacity() > 500_000 {
            break;
        }
        let x = s.next();
        f.insert(&x);
        if i % 3 == 2 {
            f.remove(&x);
        }
        if i % 64 == 63 {
            check(&f)?;
        }
    }
    check(&f)?;
    c.label_if(f.filter_count() > 1, "grown");
    c.label_if(f.filter_count() > 3, "grown often");
    let empty = bincode::serialized_size(&ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, fpp, e, growth, tight, hb)).unwrap();
    f.clear();
    ensure_eq!(bincode::serialized_size(&f).unwrap(), empty, "bytes after clear");
    if items > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "size: more than 300 bytes; scalable cuckoo: at least one item; big: more than 5000 bytes; heap: every case",
        assumptions: &[
            "size means the length of the bincode form, which has fixed-width integers",
            "heap bytes are counted by the harness's allocator; spare capacity up to a quarter is accepted, and a factor of 2.2 for overflow entries",
        ],
        scenarios: vec![
            Scenario { name: "size", cases: 72000, thorough: 40, f: c30_size },
            Scenario { name: "scalable_cuckoo", cases: 18000, thorough: 40, f: c30_scalable_cuckoo },
            Scenario { name: "big", cases: 750, thorough: 20, f: c30_big },
            Scenario { name: "heap", cases: 18000, thorough: 40, f: c30_heap },
        ],
        known: vec![],
    }
}
