//! Hash builders, key pools and numeric helpers shared by the property modules.
use engine::rng::mix;
use engine::{Case, Gen, Sm};
use probabilistic_collections::SipHasherBuilder;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher};

/// Hash builders the search uses. `Ident` hands integer keys through unchanged (chosen hash values),
/// `Low` has only a few significant bits (many collisions), `Mix` is a fast well-distributed one.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum HB {
    Mix(u64),
    Sip(SipHasherBuilder),
    Ident,
    Low(u64, u32),
    /// Well distributed but with the low bits forced to a constant: only high bits differ.
    High(u64, u32),
}

#[derive(Clone)]
pub enum HBH {
    Word { kind: HB, state: u64, n: u64 },
    Sip(<SipHasherBuilder as BuildHasher>::Hasher),
}

impl BuildHasher for HB {
    type Hasher = HBH;
    fn build_hasher(&self) -> HBH {
        match self {
            HB::Sip(b) => HBH::Sip(b.build_hasher()),
            HB::Mix(s) | HB::Low(s, _) | HB::High(s, _) => HBH::Word { kind: *self, state: mix(*s ^ 0x5bd1_e995), n: 0 },
            HB::Ident => HBH::Word { kind: *self, state: 0, n: 0 },
        }
    }
}
impl HBH {
    fn word(&mut self, w: u64) {
        if let HBH::Word { kind, state, n } = self {
            *n += 1;
            *state = match kind {
                HB::Ident if *n == 1 => w,
                _ => mix(state.rotate_left(23) ^ w).wrapping_add(0x9e37_79b9_7f4a_7c15),
            };
        }
    }
}
impl Hasher for HBH {
    fn finish(&self) -> u64 {
        match self {
            HBH::Sip(s) => s.finish(),
            HBH::Word { kind, state, .. } => match kind {
                HB::Low(_, bits) => mix(*state) & ((1u64 << bits) - 1),
                HB::High(_, bits) => mix(*state) << bits,
                HB::Ident => *state,
                _ => mix(*state),
            },
        }
    }
    fn write(&mut self, bytes: &[u8]) {
        match self {
            HBH::Sip(s) => s.write(bytes),
            _ => {
                for ch in bytes.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..ch.len()].copy_from_slice(ch);
                    self.word(u64::from_le_bytes(b));
                }
            }
        }
    }
    fn write_u64(&mut self, x: u64) {
        match self {
            HBH::Sip(s) => s.write_u64(x),
            _ => self.word(x),
        }
    }
}

pub fn sip(a: u64, b: u64) -> SipHasherBuilder {
    SipHasherBuilder::from_seed(a, b)
}

/// A key half of any kind: few users draw theirs at random.
pub fn key_half(g: &mut Gen) -> u64 {
    match g.weighted(&[4, 2, 1, 1, 1]) {
        0 => g.u64(),
        1 => g.below(4),
        2 => u64::MAX - g.below(3),
        3 => 1 << g.below(64),
        _ => g.below(1 << 32),
    }
}

/// A well-distributed hash builder.
pub fn good_hb(g: &mut Gen) -> HB {
    match g.weighted(&[2, 3]) {
        0 => HB::Mix(g.seed()),
        _ => HB::Sip(sip(g.seed(), g.seed())),
    }
}
pub fn good_pair(g: &mut Gen) -> [HB; 2] {
    [good_hb(g), good_hb(g)]
}
/// Any hash builder; fine wherever correctness may not depend on distribution.
pub fn any_hb(g: &mut Gen) -> HB {
    match g.weighted(&[3, 3, 2, 2, 1]) {
        0 => HB::Mix(g.seed()),
        1 => HB::Sip(sip(g.seed(), g.seed())),
        2 => HB::Ident,
        3 => HB::Low(g.seed(), g.range(1, 12) as u32),
        _ => HB::High(g.seed(), g.range(1, 56) as u32),
    }
}
pub fn any_pair(g: &mut Gen) -> [HB; 2] {
    [any_hb(g), any_hb(g)]
}
/// Builders for cuckoo filters: the fingerprint builder must not be stuck at all-zero fingerprints
/// (the filter rehashes until the fingerprint is non-zero), so it is a full-width one.
pub fn cuckoo_pair(g: &mut Gen) -> [HB; 2] {
    let a = match g.weighted(&[3, 3, 2]) {
        0 => HB::Mix(g.seed()),
        1 => HB::Sip(sip(g.seed(), g.seed())),
        _ => HB::Ident,
    };
    let b = match g.weighted(&[4, 3, 1, 2]) {
        0 => HB::Mix(g.seed()),
        1 => HB::Sip(sip(g.seed(), g.seed())),
        2 => HB::Ident,
        _ => HB::Low(g.seed(), g.range(1, 12) as u32),
    };
    [a, b]
}

/// A pool of distinct u64 keys: small integers, dense or strided ranges, extremes or random.
pub fn pool(g: &mut Gen, n: usize) -> Vec<u64> {
    let kind = g.weighted(&[3, 2, 3, 1]);
    let mut v: Vec<u64> = match kind {
        0 => (0..n as u64).collect(),
        1 => {
            let shift = g.range(0, 60);
            let base = g.u64();
            (0..n as u64).map(|i| base.wrapping_add(i << shift)).collect()
        }
        2 => {
            let mut s = Sm::new(g.seed());
            (0..n).map(|_| s.next()).collect()
        }
        _ => (0..n as u64).map(|i| u64::MAX - i).collect(),
    };
    v.sort_unstable();
    v.dedup();
    let mut i = 0u64;
    while v.len() < n {
        if !v.contains(&i) {
            v.push(i);
        }
        i += 1;
    }
    v
}

/// Standard deviations by which a measured count may exceed its expectation.
pub const SIGMA: f64 = 6.0;

/// Upper acceptance limit for a binomial count with success probability at most `p`.
pub fn upper(n: f64, p: f64) -> f64 {
    let p = p.clamp(0.0, 1.0);
    n * p + SIGMA * (n * p * (1.0 - p)).sqrt() + SIGMA * SIGMA / 2.0
}
pub fn lower(n: f64, p: f64) -> f64 {
    let p = p.clamp(0.0, 1.0);
    n * p - SIGMA * (n * p * (1.0 - p)).sqrt() - SIGMA * SIGMA / 2.0
}

pub fn label_hb(c: &mut Case, b: &HB) {
    c.label(match b {
        HB::Mix(_) => "hb:mix",
        HB::Sip(_) => "hb:sip",
        HB::Ident => "hb:ident",
        HB::Low(..) => "hb:low",
        HB::High(..) => "hb:high",
    });
}
