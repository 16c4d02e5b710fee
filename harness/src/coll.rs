//! A uniform, object-safe view of every collection, for the properties that quantify over all of them.
use crate::keys::*;
use engine::Gen;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bloom,
    Partitioned,
    ScalableBloom,
    Bs,
    Bssd,
    Rlbs,
    Cuckoo,
    ScalableCuckoo,
    Quotient,
    CmMin,
    CmMean,
    CmMedian,
    Hll,
}
pub const KINDS: [Kind; 13] = [
    Kind::Bloom,
    Kind::Partitioned,
    Kind::ScalableBloom,
    Kind::Bs,
    Kind::Bssd,
    Kind::Rlbs,
    Kind::Cuckoo,
    Kind::ScalableCuckoo,
    Kind::Quotient,
    Kind::CmMin,
    Kind::CmMean,
    Kind::CmMedian,
    Kind::Hll,
];

/// Construction parameters; `variant` selects the constructor.
#[derive(Clone, Debug)]
pub struct Params {
    pub kind: Kind,
    pub variant: u8,
    pub a: usize,
    pub b: usize,
    pub f: f64,
    pub growth: f64,
    pub tight: f64,
    pub hb: [HB; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Insert(u64),
    InsertN(u64, i64),
    Remove(u64),
    RemoveN(u64, i64),
    Clear,
}

/// What a caller can observe. Floats as bits so that equality is exact.
pub type Obs = Vec<i128>;

pub trait Coll {
    fn apply(&mut self, op: &Op);
    /// Answers for the probes.
    fn answers(&mut self, probes: &[u64]) -> Obs;
    /// Counters and parameters.
    fn counters(&self) -> Obs;
    fn boxed(&self) -> Box<dyn Coll>;
    /// `Clone::clone_from` on the concrete type, into an already used instance.
    fn clone_into_used(&self, used: &mut dyn Coll);
    fn any(&mut self) -> &mut dyn std::any::Any;
    fn to_bin(&self) -> Vec<u8>;
    fn from_bin(&self, b: &[u8]) -> Result<Box<dyn Coll>, String>;
    fn to_json(&self) -> String;
    fn from_json(&self, s: &str) -> Result<Box<dyn Coll>, String>;
    fn hashers(&self) -> Vec<HB>;
    /// Nominal payload size in bytes according to the public accessors, and how many overflow entries there are.
    fn nominal_bytes(&self) -> (f64, usize);
    fn is_full_quotient(&self) -> bool {
        false
    }
    /// The `Debug` form, where there is one.
    fn debug(&self) -> String {
        String::new()
    }
}

fn fb(x: f64) -> i128 {
    x.to_bits() as i128
}

macro_rules! common {
    ($t:ty) => {
        fn boxed(&self) -> Box<dyn Coll> {
            Box::new(self.clone())
        }
        fn clone_into_used(&self, used: &mut dyn Coll) {
            let u = used.any().downcast_mut::<$t>().expect("same type");
            u.clone_from(self);
        }
        fn any(&mut self) -> &mut dyn std::any::Any {
            self
        }
        fn to_bin(&self) -> Vec<u8> {
            bincode::serialize(self).expect("serialize")
        }
        fn from_bin(&self, b: &[u8]) -> Result<Box<dyn Coll>, String> {
            bincode::deserialize::<$t>(b).map(|x| Box::new(x) as Box<dyn Coll>).map_err(|e| e.to_string())
        }
        fn to_json(&self) -> String {
            serde_json::to_string(self).expect("to_json")
        }
        fn from_json(&self, s: &str) -> Result<Box<dyn Coll>, String> {
            serde_json::from_str::<$t>(s).map(|x| Box::new(x) as Box<dyn Coll>).map_err(|e| e.to_string())
        }
    };
}

macro_rules! insert_only {
    () => {
        fn apply(&mut self, op: &Op) {
            match op {
                Op::Insert(k) | Op::InsertN(k, _) => self.insert(k),
                Op::Remove(_) | Op::RemoveN(..) => {}
                Op::Clear => self.clear(),
            }
        }
        fn answers(&mut self, probes: &[u64]) -> Obs {
            probes.iter().map(|p| self.contains(p) as i128).collect()
        }
        fn hashers(&self) -> Vec<HB> {
            self.hashers().to_vec()
        }
    };
}

impl Coll for BloomFilter<u64, HB> {
    common!(BloomFilter<u64, HB>);
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self, self)
    }
    insert_only!();
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.hasher_count() as i128,
            self.count_ones() as i128,
            self.count_zeros() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        (self.len() as f64 / 8.0, 0)
    }
}
impl Coll for PartitionedBloomFilter<u64, HB> {
    common!(PartitionedBloomFilter<u64, HB>);
    insert_only!();
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.bit_count() as i128,
            self.hasher_count() as i128,
            self.count_ones() as i128,
            self.count_zeros() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        (self.len() as f64 / 8.0, 0)
    }
}
impl Coll for ScalableBloomFilter<u64, HB> {
    common!(ScalableBloomFilter<u64, HB>);
    insert_only!();
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.filter_count() as i128,
            self.count_ones() as i128,
            self.count_zeros() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        (self.len() as f64 / 8.0 + (self.filter_count() - 1) as f64 * 140.0, 0)
    }
}
macro_rules! stream {
    ($t:ident) => {
        impl Coll for $t<u64, HB> {
            common!($t<u64, HB>);
            insert_only!();
            fn counters(&self) -> Obs {
                vec![
                    self.len() as i128,
                    self.is_empty() as i128,
                    self.bit_count() as i128,
                    self.hasher_count() as i128,
                    self.count_ones() as i128,
                    self.count_zeros() as i128,
                ]
            }
            fn nominal_bytes(&self) -> (f64, usize) {
                (self.len() as f64 / 8.0 + 26.0 * self.hasher_count() as f64, 0)
            }
        }
    };
}
stream!(BSBloomFilter);
stream!(BSSDBloomFilter);
stream!(RLBSBloomFilter);

impl Coll for CuckooFilter<u64, HB> {
    common!(CuckooFilter<u64, HB>);
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self, self)
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(k) | Op::InsertN(k, _) => self.insert(k),
            Op::Remove(k) | Op::RemoveN(k, _) => self.remove(k),
            Op::Clear => self.clear(),
        }
    }
    fn answers(&mut self, probes: &[u64]) -> Obs {
        probes.iter().map(|p| self.contains(p) as i128).collect()
    }
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.capacity() as i128,
            self.bucket_len() as i128,
            self.entries_per_index() as i128,
            self.extra_items_len() as i128,
            self.is_nearly_full() as i128,
            self.fingerprint_bit_count() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn hashers(&self) -> Vec<HB> {
        self.hashers().to_vec()
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        (
            (self.bucket_len() * self.entries_per_index() * self.fingerprint_bit_count()) as f64 / 8.0,
            self.extra_items_len(),
        )
    }
}
impl Coll for ScalableCuckooFilter<u64, HB> {
    common!(ScalableCuckooFilter<u64, HB>);
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(k) | Op::InsertN(k, _) => self.insert(k),
            Op::Remove(k) | Op::RemoveN(k, _) => self.remove(k),
            Op::Clear => self.clear(),
        }
    }
    fn answers(&mut self, probes: &[u64]) -> Obs {
        probes.iter().map(|p| self.contains(p) as i128).collect()
    }
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.capacity() as i128,
            self.entries_per_index() as i128,
            self.filter_count() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn hashers(&self) -> Vec<HB> {
        self.hashers().to_vec()
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        // fingerprints are at most 64 bits wide
        (self.capacity() as f64 * 8.0, self.filter_count() * 20)
    }
}
impl Coll for QuotientFilter<u64, HB> {
    common!(QuotientFilter<u64, HB>);
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(k) | Op::InsertN(k, _) => {
                // a new item in a full filter is a documented panic, which is C12's subject
                if self.len() < self.capacity() || self.contains(k) {
                    self.insert(k)
                }
            }
            Op::Remove(k) | Op::RemoveN(k, _) => self.remove(k),
            Op::Clear => self.clear(),
        }
    }
    fn answers(&mut self, probes: &[u64]) -> Obs {
        probes.iter().map(|p| self.contains(p) as i128).collect()
    }
    fn counters(&self) -> Obs {
        vec![
            self.len() as i128,
            self.is_empty() as i128,
            self.capacity() as i128,
            self.quotient_bits() as i128,
            self.remainder_bits() as i128,
            fb(self.estimated_fpp()),
        ]
    }
    fn hashers(&self) -> Vec<HB> {
        vec![*self.hasher()]
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        ((self.remainder_bits() as f64 + 3.0) * self.capacity() as f64 / 8.0, 0)
    }
}
macro_rules! cms {
    ($s:ident) => {
        impl Coll for CountMinSketch<$s, u64, HB> {
            common!(CountMinSketch<$s, u64, HB>);
            fn apply(&mut self, op: &Op) {
                match op {
                    Op::Insert(k) => self.insert(k, 1),
                    Op::InsertN(k, n) => self.insert(k, *n),
                    Op::Remove(k) => self.remove(k, 1),
                    Op::RemoveN(k, n) => self.remove(k, *n),
                    Op::Clear => self.clear(),
                }
            }
            fn answers(&mut self, probes: &[u64]) -> Obs {
                probes.iter().map(|p| self.count(p) as i128).collect()
            }
            fn counters(&self) -> Obs {
                vec![self.rows() as i128, self.cols() as i128, fb(self.confidence()), fb(self.error())]
            }
            fn hashers(&self) -> Vec<HB> {
                self.hashers().to_vec()
            }
            fn nominal_bytes(&self) -> (f64, usize) {
                ((self.rows() * self.cols() * 8) as f64, 0)
            }
        }
    };
}
/// The crate's strategies do not implement `Clone`, and the sketch's derived `Clone` asks for it; these
/// cloneable wrappers delegate to them.
macro_rules! wrap {
    ($w:ident, $s:ident) => {
        #[derive(Clone)]
        pub struct $w;
        impl CountStrategy for $w {
            fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
                $s::get_estimate(items, rows, cols, iter)
            }
        }
    };
}
wrap!(SMin, CountMinStrategy);
wrap!(SMean, CountMeanStrategy);
wrap!(SMedian, CountMedianBiasStrategy);
cms!(SMin);
cms!(SMean);
cms!(SMedian);

impl Coll for HyperLogLog<u64, HB> {
    common!(HyperLogLog<u64, HB>);
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(k) | Op::InsertN(k, _) => self.insert(k),
            Op::Remove(_) | Op::RemoveN(..) => {}
            Op::Clear => self.clear(),
        }
    }
    fn answers(&mut self, _probes: &[u64]) -> Obs {
        vec![fb(self.len()), self.is_empty() as i128]
    }
    fn counters(&self) -> Obs {
        vec![fb(self.len()), self.is_empty() as i128]
    }
    fn hashers(&self) -> Vec<HB> {
        vec![*self.hasher()]
    }
    fn nominal_bytes(&self) -> (f64, usize) {
        (0.0, 0)
    }
}

impl Params {
    pub fn has_rng(&self) -> bool {
        matches!(self.kind, Kind::Bs | Kind::Bssd | Kind::Rlbs | Kind::Cuckoo | Kind::ScalableCuckoo)
    }
    pub fn is_stream(&self) -> bool {
        matches!(self.kind, Kind::Bs | Kind::Bssd | Kind::Rlbs)
    }
    pub fn is_cm(&self) -> bool {
        matches!(self.kind, Kind::CmMin | Kind::CmMean | Kind::CmMedian)
    }
    pub fn has_remove(&self) -> bool {
        matches!(self.kind, Kind::Cuckoo | Kind::ScalableCuckoo | Kind::Quotient) || self.is_cm()
    }
    pub fn is_scalable(&self) -> bool {
        matches!(self.kind, Kind::ScalableBloom | Kind::ScalableCuckoo)
    }

    pub fn build(&self) -> Box<dyn Coll> {
        let h = self.hb;
        match self.kind {
            Kind::Bloom => Box::new(self.bloom()),
            Kind::Partitioned => Box::new(self.partitioned()),
            Kind::ScalableBloom => {
                Box::new(ScalableBloomFilter::<u64, HB>::with_hashers(self.a, self.f, self.growth, self.tight, h))
            }
            Kind::Bs => Box::new(BSBloomFilter::<u64, HB>::with_hashers(self.a, self.f, h)),
            Kind::Bssd => Box::new(BSSDBloomFilter::<u64, HB>::with_hashers(self.a, self.f, h)),
            Kind::Rlbs => Box::new(RLBSBloomFilter::<u64, HB>::with_hashers(self.a, self.f, h)),
            Kind::Cuckoo => Box::new(self.cuckoo()),
            Kind::ScalableCuckoo => Box::new(self.scalable_cuckoo()),
            Kind::Quotient => Box::new(self.quotient()),
            Kind::CmMin => Box::new(CountMinSketch::<SMin, u64, HB>::with_hashers(self.a, self.b, h)),
            Kind::CmMean => Box::new(CountMinSketch::<SMean, u64, HB>::with_hashers(self.a, self.b, h)),
            Kind::CmMedian => {
                Box::new(CountMinSketch::<SMedian, u64, HB>::with_hashers(self.a, self.b, h))
            }
            Kind::Hll => Box::new(HyperLogLog::<u64, HB>::with_hasher(self.f, h[0])),
        }
    }
    pub fn bloom(&self) -> BloomFilter<u64, HB> {
        match self.variant {
            0 => BloomFilter::with_hashers(self.a, self.f, self.hb),
            1 => BloomFilter::from_item_count_with_hashers(self.a, self.b, self.hb),
            _ => BloomFilter::from_fpp_with_hashers(self.a, self.f, self.hb),
        }
    }
    pub fn partitioned(&self) -> PartitionedBloomFilter<u64, HB> {
        match self.variant {
            0 => PartitionedBloomFilter::from_item_count_with_hashers(self.a, self.f, self.hb),
            _ => PartitionedBloomFilter::from_bit_count_with_hashers(self.a, self.f, self.hb),
        }
    }
    pub fn cuckoo(&self) -> CuckooFilter<u64, HB> {
        match self.variant {
            0 => CuckooFilter::with_hashers(self.a, self.hb),
            1 => CuckooFilter::from_parameters_with_hashers(self.a, self.b & 0xff, self.b >> 8, self.hb),
            2 => CuckooFilter::from_entries_per_index_with_hashers(self.a, self.f, self.b, self.hb),
            _ => CuckooFilter::from_fingerprint_bit_count_with_hashers(self.a, self.f, self.b, self.hb),
        }
    }
    pub fn scalable_cuckoo(&self) -> ScalableCuckooFilter<u64, HB> {
        match self.variant {
            0 => ScalableCuckooFilter::with_hashers(self.a, self.f, self.growth, self.tight, self.hb),
            _ => ScalableCuckooFilter::from_entries_per_index_with_hashers(
                self.a, self.f, self.b, self.growth, self.tight, self.hb,
            ),
        }
    }
    pub fn quotient(&self) -> QuotientFilter<u64, HB> {
        match self.variant {
            0 => QuotientFilter::with_hasher(self.a as u8, self.b as u8, self.hb[0]),
            _ => QuotientFilter::from_fpp_with_hasher(self.a, self.f, self.hb[0]),
        }
    }
}

/// Parameters of one kind; `scale` is the approximate number of items the instance is meant for.
pub fn gen_params(g: &mut Gen, kind: Kind, scale: usize) -> Params {
    let hb = match kind {
        Kind::Cuckoo | Kind::ScalableCuckoo => cuckoo_pair(g),
        _ => any_pair(g),
    };
    let mut p = Params { kind, variant: 0, a: 1, b: 1, f: 0.1, growth: 2.0, tight: 0.5, hb };
    match kind {
        Kind::Bloom => {
            p.variant = g.idx(3) as u8;
            match p.variant {
                0 => {
                    p.a = g.us(1, scale);
                    p.f = g.flog(1e-9, 0.95);
                }
                1 => {
                    p.a = g.us(1, scale * 8);
                    // bits per item up to about 40
                    p.b = g.us((p.a / 40).max(1), (p.a * 2).max(1));
                }
                _ => {
                    p.a = g.us(1, scale * 8);
                    p.f = g.flog(1e-9, 0.95);
                }
            }
        }
        Kind::Partitioned => {
            p.variant = g.idx(2) as u8;
            p.a = g.us(1, if p.variant == 0 { scale } else { scale * 2 });
            p.f = g.flog(1e-9, 0.95);
        }
        Kind::ScalableBloom => {
            p.a = g.us(1, scale * 4);
            p.f = g.flog(1e-6, 0.9);
            p.growth = if g.chance(1, 6) { 1.0 } else { g.unit(1.0, 4.0) };
            p.tight = g.unit(0.1, 1.0);
        }
        Kind::Bs | Kind::Bssd | Kind::Rlbs => {
            p.a = g.us(1, scale * 2);
            p.f = g.flog(1e-6, 0.95);
        }
        Kind::Cuckoo => {
            p.variant = g.idx(4) as u8;
            p.a = g.us(1, scale);
            match p.variant {
                1 => p.b = g.us(2, 64) | (if g.chance(1, 12) { g.us(9, 60) } else { g.us(1, 8) } << 8),
                2 => {
                    p.f = g.flog(1e-12, 0.95);
                    p.b = g.us(1, 8);
                }
                3 => {
                    // choose f bits and a probability that yields 1..=12 entries per index
                    p.b = g.us(2, 40);
                    let e = g.us(1, 12) as f64;
                    let single = -1.0 / (2f64.powi(p.b as i32) - 1.0);
                    p.f = -(2.0 * (e + 0.5) * single.ln_1p()).exp_m1();
                }
                _ => {}
            }
        }
        Kind::ScalableCuckoo => {
            p.variant = g.idx(2) as u8;
            p.a = g.us(1, scale);
            p.f = g.flog(1e-9, 0.9);
            p.b = if g.chance(1, 12) { g.us(7, 40) } else { g.us(1, 6) };
            p.growth = if g.chance(1, 6) { 1.0 } else { g.unit(1.0, 4.0) };
            p.tight = g.unit(0.1, 1.0);
        }
        Kind::Quotient => {
            p.variant = g.idx(2) as u8;
            match p.variant {
                0 => {
                    let maxq = (usize::BITS - scale.leading_zeros()).clamp(1, 10) as usize;
                    p.a = g.us(1, maxq);
                    p.b = if g.chance(1, 3) { g.us(1, 61) } else { g.us(1, 6) };
                    p.b = p.b.min(64 - p.a);
                }
                _ => {
                    p.a = g.us(1, scale);
                    p.f = g.flog(1e-9, 0.95);
                }
            }
        }
        Kind::CmMin | Kind::CmMean | Kind::CmMedian => {
            p.a = g.us(1, 9);
            p.b = g.us(if kind == Kind::CmMedian { 2 } else { 1 }, scale.max(3));
        }
        Kind::Hll => {
            p.f = g.flog(0.02, 0.99);
        }
    }
    p
}

pub fn gen_op(g: &mut Gen, p: &Params, pool: &[u64], clear_weight: u64) -> Op {
    let rem = if p.has_remove() { 5 } else { 0 };
    match g.weighted(&[10, rem, clear_weight]) {
        0 => {
            let k = *g.pick(pool);
            if p.is_cm() && g.chance(1, 2) {
                Op::InsertN(k, g.irange(-1000, 1000))
            } else {
                Op::Insert(k)
            }
        }
        1 => {
            let k = *g.pick(pool);
            if p.is_cm() && g.chance(1, 2) {
                Op::RemoveN(k, g.irange(-1000, 1000))
            } else {
                Op::Remove(k)
            }
        }
        _ => Op::Clear,
    }
}
