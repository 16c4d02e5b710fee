//! C05-C10: cuckoo and scalable cuckoo filters.
use crate::coll::*;
use crate::keys::*;
use engine::*;
use probabilistic_collections::cuckoo::*;
use std::collections::BTreeSet;

type Cf = CuckooFilter<u64, HB>;
type Scf = ScalableCuckooFilter<u64, HB>;

fn npow2(n: usize, e: usize) -> usize {
    let mut b = 1;
    while b * e < n {
        b *= 2;
    }
    b
}

/// Small geometry (few buckets, narrow fingerprints) or anything a constructor gives.
fn gen_cuckoo(c: &mut Case, max_items: usize) -> (Params, Cf) {
    let p = if c.g.chance(1, 3) {
        let scale = c.g.logu(1, max_items);
        gen_params(&mut c.g, Kind::Cuckoo, scale)
    } else {
        let hb = cuckoo_pair(&mut c.g);
        let n = c.g.logu(1, max_items);
        let f = c.g.us(2, 16);
        let e = if c.g.chance(1, 10) { c.g.us(9, 48) } else { c.g.us(1, 8) };
        Params { kind: Kind::Cuckoo, variant: 1, a: n, b: f | e << 8, f: 0.0, growth: 0.0, tight: 0.0, hb }
    };
    let f = p.cuckoo();
    (p, f)
}

// ---------------------------------------------------------------- C05

fn c05_history(c: &mut Case) -> R {
    let (p, mut f) = gen_cuckoo(c, 64);
    let n = c.g.us(1, 120);
    let keys = pool(&mut c.g, n);
    tr!(c, "{:?} capacity {} f {} e {}; {} keys", p, f.bucket_len() * f.entries_per_index(), f.fingerprint_bit_count(), f.entries_per_index(), n);
    label_hb(c, &p.hb[0]);
    let mut live: Vec<u64> = Vec::new();
    let (mut max_extra, mut removed, mut rejected) = (0, 0, 0);
    // phases of mostly inserting and mostly removing
    let mut filling = true;
    while c.g.more(90) {
        if c.g.chance(1, 30) {
            filling = !filling;
        }
        match c.g.weighted(&[if filling { 14 } else { 4 }, if filling { 3 } else { 14 }, 2, 1, 1]) {
            0 => {
                let k = *c.g.pick(&keys);
                let had = f.contains(&k);
                ensure!(had || !live.contains(&k), "accepted item {} lost", k);
                f.insert(&k);
                tr!(c, "insert {} (present before: {}) extra {}", k, had, f.extra_items_len());
                ensure!(f.contains(&k), "item {} absent right after its insertion", k);
                if !had {
                    live.push(k);
                } else {
                    rejected += 1;
                }
            }
            1 => {
                if !live.is_empty() {
                    let i = c.g.idx(live.len());
                    let k = live.swap_remove(i);
                    f.remove(&k);
                    removed += 1;
                    tr!(c, "remove live {}", k);
                    ensure!(!f.contains(&k), "item {} still reported right after its removal", k);
                }
            }
            2 => {
                let k = *c.g.pick(&keys);
                if !f.contains(&k) {
                    f.remove(&k);
                    tr!(c, "remove absent {}", k);
                }
            }
            3 => f = f.clone(),
            _ => {
                if c.g.chance(1, 4) {
                    f.clear();
                    live.clear();
                    tr!(c, "clear");
                }
            }
        }
        max_extra = max_extra.max(f.extra_items_len());
        for k in &live {
            ensure!(f.contains(k), "accepted item {} lost ({} live, {} extra)", k, live.len(), f.extra_items_len());
        }
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "len + extra_items_len vs. live accepted items");
        ensure_eq!(f.is_nearly_full(), f.extra_items_len() > 0, "is_nearly_full");
        ensure_eq!(f.is_empty(), live.is_empty(), "is_empty with {} live items, len {}, extra {}", live.len(), f.len(), f.extra_items_len());
        ensure!(f.len() <= f.bucket_len() * f.entries_per_index(), "more entries than slots");
    }
    if live.len() + removed >= 5 {
        c.nontrivial();
    }
    c.label_if(max_extra > 0, "overflowed");
    c.label_if(max_extra > 3 && removed > 3, "overflowed and removed");
    c.label_if(rejected > 0, "already present");
    // empty it completely
    while let Some(k) = live.pop() {
        f.remove(&k);
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries while removing everything");
    }
    ensure!(f.is_empty(), "not empty after removing every item");
    for k in &keys {
        ensure!(!f.contains(k), "{} reported by an emptied filter", k);
    }
    Ok(())
}

fn c05_bulk(c: &mut Case) -> R {
    let hb = cuckoo_pair(&mut c.g);
    let items = c.g.logu(1, 3000);
    let fb = c.g.us(3, 64);
    let e = if c.g.chance(1, 8) { c.g.us(10, 80) } else { c.g.us(1, 9) };
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    let cap = f.bucket_len() * e;
    let ident = hb.iter().any(|h| matches!(h, HB::Ident | HB::Low(..)));
    // overflow entries are searched linearly, so bound how far the filter is overfilled
    let over = c.g.unit(0.3, 3.0);
    let n = ((cap as f64 * over) as usize).clamp(4, cap + 1500).min(if ident { 1200 } else { 6000 });
    let mut s = Sm::new(c.g.seed());
    let seq = c.g.chance(1, 3);
    let keys: Vec<u64> = (0..n as u64).map(|i| if seq { i } else { s.next() }).collect();
    tr!(c, "items {} f {} e {} {:?} inserting {} into {}", items, fb, e, hb, n, cap);
    let mut live = Vec::new();
    for k in &keys {
        if !f.contains(k) {
            live.push(*k);
        }
        f.insert(k);
    }
    let check = |f: &Cf, live: &[u64], when: &str| -> R {
        for k in live {
            ensure!(f.contains(k), "accepted item {} lost {} ({} live, {} extra)", k, when, live.len(), f.extra_items_len());
        }
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries {}", when);
        Ok(())
    };
    check(&f, &live, "after bulk insertion")?;
    c.label_if(f.extra_items_len() > 0, "overflowed");
    // random removals, then refill, then check again
    let rounds = c.g.us(1, 3);
    for _ in 0..rounds {
        s.shuffle(&mut live);
        let keep = s.below(live.len() as u64 + 1) as usize;
        for k in live.drain(keep..) {
            f.remove(&k);
        }
        check(&f, &live, "after removals")?;
        for _ in 0..s.below(n as u64 + 1) {
            let k = s.next();
            if !f.contains(&k) {
                live.push(k);
                f.insert(&k);
            }
        }
        check(&f, &live, "after refilling")?;
        if f.extra_items_len() > 3000 {
            break;
        }
    }
    c.nontrivial();
    Ok(())
}

fn c05_borrowed(c: &mut Case) -> R {
    let hb = cuckoo_pair(&mut c.g);
    let items = c.g.us(1, 60);
    let mut f = CuckooFilter::<String, HB>::from_parameters_with_hashers(items, c.g.us(8, 32), c.g.us(1, 4), hb);
    let mut sc = ScalableCuckooFilter::<String, HB>::with_hashers(items, 0.01, 2.0, 0.5, hb);
    let mut live: Vec<String> = Vec::new();
    while c.g.more(30) {
        let len = c.g.logu(1, 24) - 1;
        let s: String = (0..len).map(|_| c.g.of(&['a', 'b', '\0', 'é', ' '])).collect();
        if !f.contains(s.as_str()) && !sc.contains(&s) && !live.contains(&s) {
            if c.g.chance(1, 2) {
                f.insert(&s);
                sc.insert(s.as_str());
            } else {
                f.insert(s.as_str());
                sc.insert(&s);
            }
            live.push(s);
        } else if !live.is_empty() && c.g.chance(1, 3) {
            let i = c.g.idx(live.len());
            let k = live.swap_remove(i);
            f.remove(k.as_str());
            sc.remove(&k);
        }
        for k in &live {
            ensure!(f.contains(k) && f.contains(k.as_str()) && sc.contains(k) && sc.contains(k.as_str()), "{:?} lost through a borrowed form", k);
        }
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries");
        ensure_eq!(sc.len(), live.len(), "scalable entries");
    }
    if live.len() >= 3 {
        c.nontrivial();
    }
    Ok(())
}

/// Thousands of overflow entries on a small table, or a table of up to a million slots, or one of more than 2^32 bits.
fn c05_large(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let shape = c.g.weighted(&[6, 6, 2, 1]);
    let (items, fb, e, n) = match shape {
        // overflow entries are searched linearly, so their number is bounded
        0 => (c.g.logu(1, 2000), c.g.us(30, 64), c.g.us(1, 8), c.g.logu(3000, 14_000)),
        1 => {
            let most = if c.g.chance(1, 8) { 1 << 21 } else { 1 << 19 };
            let items = c.g.logu(1 << 15, most);
            (items, c.g.us(16, 64), c.g.us(2, 6), (items as f64 * c.g.unit(0.5, 0.9)) as usize)
        }
        3 => (c.g.logu(1, 200), c.g.us(40, 64), c.g.us(1, 4), c.g.us(66_000, 70_000)),
        _ => {
            let fb = c.g.us(33, 64);
            ((1usize << 27) + c.g.us(0, 1000), fb, c.g.us(1, 5), c.g.us(2000, 5000))
        }
    };
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    let cap = f.bucket_len() * e;
    tr!(c, "items {} f {} e {} {:?} inserting {} into {}", items, fb, e, hb, n, cap);
    let mut s = Sm::new(c.g.seed());
    let mut live = Vec::new();
    for _ in 0..n {
        let k = s.next();
        if !f.contains(&k) {
            live.push(k);
            f.insert(&k);
        }
    }
    let check = |f: &Cf, live: &[u64], when: &str| -> R {
        for k in live {
            ensure!(f.contains(k), "accepted item {} lost {} ({} live, {} extra)", k, when, live.len(), f.extra_items_len());
        }
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries {}", when);
        Ok(())
    };
    check(&f, &live, "after bulk insertion")?;
    c.label_if(f.extra_items_len() > 4096, "4096+ overflow entries");
    c.label_if(f.extra_items_len() > 65536, "2^16+ overflow entries");
    c.label_if(cap * fb > 1 << 32, "more than 2^32 bits");
    c.label_if(cap > 1 << 17, "more than 2^17 slots");
    s.shuffle(&mut live);
    let keep = live.len() - s.below(live.len() as u64) as usize;
    let gone: Vec<u64> = live.drain(keep..).collect();
    for k in &gone {
        f.remove(k);
    }
    check(&f, &live, "after removals")?;
    if fb >= 40 {
        // no aliases at this width: a removed item is reported with probability below 1e-6
        let back = gone.iter().take(4000).filter(|k| f.contains(*k)).count();
        ensure!(back <= 1, "{} of {} removed items still reported", back, gone.len().min(4000));
    }
    for k in &live {
        f.remove(k);
    }
    ensure!(f.is_empty(), "not empty after removing every item: len {} extra {}", f.len(), f.extra_items_len());
    c.nontrivial();
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "histories of inserting, removing live items, removing absent items, clearing and cloning over random geometry (1-8 entries, \
               2-64 bit fingerprints, 1-many buckets) and builders, with overfilling up to several times the capacity, thousands of overflow entries, \
               and tables of up to 2^19 items or more than 2^32 bits; non-trivial: at least \
               5 accepted items (history), every bulk and large case, at least 3 live strings (borrowed); distinct by hash of the choice sequence",
        assumptions: &[
            "the fingerprint hash builder is not stuck on all-zero fingerprints (the filter rehashes until non-zero)",
            "only items reported absent before their insertion are removed (removing a false positive legitimately removes its alias)",
        ],
        scenarios: vec![
            Scenario { name: "history", cases: 63000, thorough: 20, f: c05_history },
            Scenario { name: "bulk", cases: 1000, thorough: 20, f: c05_bulk },
            Scenario { name: "borrowed", cases: 7000, thorough: 20, f: c05_borrowed },
            Scenario { name: "large", cases: 100, thorough: 10, f: c05_large },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C06

fn c06_classes(c: &mut Case) -> R {
    let (p, fresh) = gen_cuckoo(c, 40);
    let n = c.g.us(2, 44);
    let keys = pool(&mut c.g, n);
    tr!(c, "{:?} f {} e {} buckets {} {} keys", p, fresh.fingerprint_bit_count(), fresh.entries_per_index(), fresh.bucket_len(), n);
    // classes from filters holding one item each
    let mut class = vec![usize::MAX; n];
    let mut singles = Vec::new();
    for i in 0..n {
        let mut f = p.cuckoo();
        f.insert(&keys[i]);
        ensure_eq!(f.len() + f.extra_items_len(), 1, "entries of a filter with one item");
        singles.push((0..n).map(|j| f.contains(&keys[j])).collect::<Vec<bool>>());
        ensure!(singles[i][i], "item {} absent from the filter holding it", keys[i]);
    }
    for i in 0..n {
        for j in 0..n {
            ensure_eq!(singles[i][j], singles[j][i], "matching of {} and {} is not symmetric", keys[i], keys[j]);
            if singles[i][j] {
                ensure!(singles[i] == singles[j], "matching is not transitive around {} and {}", keys[i], keys[j]);
            }
        }
        class[i] = (0..n).find(|&j| singles[i][j]).unwrap();
    }
    let distinct: BTreeSet<usize> = class.iter().copied().collect();
    let mut f = fresh;
    let mut live: BTreeSet<usize> = BTreeSet::new();
    let (mut over, mut alias_rm, mut absent_rm) = (false, false, false);
    let mut filling = true;
    while c.g.more(70) {
        if c.g.chance(1, 25) {
            filling = !filling;
        }
        let i = c.g.idx(n);
        match c.g.weighted(&[if filling { 12 } else { 4 }, if filling { 4 } else { 10 }, 1]) {
            0 => {
                f.insert(&keys[i]);
                live.insert(class[i]);
                tr!(c, "insert {} class {} extra {}", keys[i], class[i], f.extra_items_len());
            }
            1 => {
                f.remove(&keys[i]);
                if live.remove(&class[i]) {
                    alias_rm |= class.iter().filter(|x| **x == class[i]).count() > 1;
                } else {
                    absent_rm = true;
                }
                tr!(c, "remove {} class {}", keys[i], class[i]);
            }
            _ => {
                if c.g.chance(1, 3) {
                    f.clear();
                    live.clear();
                    tr!(c, "clear");
                } else {
                    f = f.clone();
                }
            }
        }
        over |= f.extra_items_len() > 0;
        ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries vs. live classes");
        for j in 0..n {
            ensure_eq!(f.contains(&keys[j]), live.contains(&class[j]), "contains({}) with live classes {:?}", keys[j], live);
        }
        ensure_eq!(f.is_empty(), live.is_empty(), "is_empty with {} live classes", live.len());
    }
    if !live.is_empty() && distinct.len() >= 3 {
        c.nontrivial();
    }
    c.label_if(distinct.len() < n, "aliases exist");
    c.label_if(over, "overflowed");
    c.label_if(alias_rm, "removed through an alias class");
    c.label_if(absent_rm, "removed absent");
    Ok(())
}

fn c06_scale(c: &mut Case) -> R {
    // Ident builders give full control: fingerprint = low bits of the key, so aliases are known in advance.
    let flood = c.g.chance(1, 30);
    let fb = if flood { c.g.us(17, 40) } else { c.g.us(6, 24) };
    let e = c.g.us(1, 6);
    let items = if flood { c.g.logu(1, 800) } else { c.g.logu(16, 800) };
    let second = good_hb(&mut c.g);
    let hb = [HB::Ident, second];
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    let cap = f.bucket_len() * e;
    let mut s = Sm::new(c.g.seed());
    // insert keys with pairwise different non-zero fingerprints: no aliases are possible at all
    let m = ((1usize << fb) - 1).min(if flood { 2 * c.g.us(3000, 10_000) } else { (cap + 40).min(1200) });
    let mut fps: Vec<u64> = (1..=(1u64 << fb.min(if flood { 16 } else { 14 })) - 1).collect();
    s.shuffle(&mut fps);
    fps.truncate(m.max(1));
    let keys: Vec<u64> = fps.iter().map(|x| x | (s.next() << fb)).collect();
    tr!(c, "f {} e {} capacity {} keys {}", fb, e, cap, keys.len());
    let half = keys.len() / 2;
    for (i, k) in keys[..half].iter().enumerate() {
        ensure!(!f.contains(k), "{} reported although no live fingerprint equals its own", k);
        f.insert(k);
        ensure_eq!(f.len() + f.extra_items_len(), i + 1, "entries");
    }
    for k in &keys[half..] {
        ensure!(!f.contains(k), "{} reported although no live fingerprint equals its own", k);
        f.remove(k);
    }
    ensure_eq!(f.len() + f.extra_items_len(), half, "entries after removing absent items");
    for (i, k) in keys[..half].iter().enumerate() {
        ensure!(f.contains(k), "{} lost", k);
        if i % 2 == 0 {
            f.remove(k);
            ensure!(!f.contains(k), "{} still present after removal", k);
        }
    }
    for (i, k) in keys[..half].iter().enumerate() {
        ensure_eq!(f.contains(k), i % 2 == 1, "contains({}) after removing every other item", k);
    }
    c.label_if(flood, "thousands of overflow entries");
    if half >= 4 {
        c.nontrivial();
    }
    Ok(())
}

/// Tables of up to half a million entries with pairwise different fingerprints: everything is exact.
fn c06_large(c: &mut Case) -> R {
    let fb = c.g.us(21, 44);
    let e = c.g.us(1, 8);
    let items = c.g.logu(5000, 350_000);
    let hb = [HB::Ident, good_hb(&mut c.g)];
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    let cap = f.bucket_len() * e;
    // below and above what fits into the table
    let n = (cap as f64 * c.g.unit(0.3, if e < 3 { 0.95 } else { 1.02 })) as usize;
    let n = n.min((1 << fb) / 2 - 2).min(400_000);
    let mut s = Sm::new(c.g.seed());
    let (mul, mask) = (s.next() | 1, (1u64 << fb) - 1);
    // different low bits for different numbers; 0 stands for itself only
    let mut key = |i: usize| ((i as u64 + 1).wrapping_mul(mul) & mask) | s.next() << fb;
    let keys: Vec<u64> = (0..n).map(&mut key).collect();
    let absent: Vec<u64> = (n..2 * n).map(&mut key).collect();
    tr!(c, "f {} e {} capacity {} keys {} multiplier {:x}", fb, e, cap, n, mul);
    let every = |k: usize| 1 + k / 2000;
    for (i, k) in keys.iter().enumerate() {
        if i % every(n) == 0 {
            ensure!(!f.contains(k), "{:x} reported although no live fingerprint equals its own", k);
        }
        f.insert(k);
    }
    ensure_eq!(f.len() + f.extra_items_len(), n, "entries");
    for k in &keys {
        ensure!(f.contains(k), "{:x} lost", k);
    }
    for k in &absent {
        ensure!(!f.contains(k), "{:x} reported although no live fingerprint equals its own", k);
        f.remove(k);
    }
    ensure_eq!(f.len() + f.extra_items_len(), n, "entries after removing absent items");
    c.label_if(f.extra_items_len() > 0, "overflowed");
    let odd = mul >> 7 & 1;
    for (i, k) in keys.iter().enumerate() {
        if i as u64 & 1 == odd {
            f.remove(k);
        }
    }
    for (i, k) in keys.iter().enumerate() {
        ensure_eq!(f.contains(k), i as u64 & 1 != odd, "contains({:x}) after removing every other item", k);
    }
    for (i, k) in keys.iter().enumerate() {
        if i as u64 & 1 == odd {
            f.insert(k);
        }
    }
    ensure_eq!(f.len() + f.extra_items_len(), n, "entries after inserting them again");
    for k in &keys {
        ensure!(f.contains(k), "{:x} lost after being inserted again", k);
    }
    for k in &keys {
        f.remove(k);
    }
    ensure!(f.is_empty() && f.len() == 0 && f.extra_items_len() == 0, "{} + {} entries after removing everything", f.len(), f.extra_items_len());
    c.label_if(n > 1 << 16, "more than 2^16 items");
    c.nontrivial();
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "fingerprint classes of a key pool computed from one-item filters, then a history of insert/remove/clear/clone compared after \
               every step with a set of classes (all keys queried, entry count exact), plus runs with pairwise different fingerprints; \
               non-trivial: at least 3 classes and a non-empty final set (classes), at least 4 items (scale), all (large)",
        assumptions: &["the fingerprint hash builder is not stuck on all-zero fingerprints"],
        scenarios: vec![
            Scenario { name: "classes", cases: 50000, thorough: 20, f: c06_classes },
            Scenario { name: "scale", cases: 2000, thorough: 20, f: c06_scale },
            Scenario { name: "large", cases: 100, thorough: 20, f: c06_large },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C07

fn single(fb: usize) -> f64 {
    1.0 / (2f64.powi(fb as i32) - 1.0)
}
/// Probability that a never-inserted item meets its fingerprint among `entries` examined ones (independent ones).
fn match_fpp(fb: usize, entries: f64) -> f64 {
    -(entries * (-single(fb)).ln_1p()).exp_m1()
}

fn c07_geometry(c: &mut Case) -> R {
    let hb = cuckoo_pair(&mut c.g);
    let n = c.g.logu(1, 200_000);
    let variant = c.g.idx(4);
    let (f, e, fb): (Cf, usize, Option<usize>) = match variant {
        0 => (Cf::with_hashers(n, hb), 4, Some(8)),
        1 => {
            let (fb, e) = (c.g.us(2, 64), c.g.us(1, 12));
            let n = n.min(20_000);
            (Cf::from_parameters_with_hashers(n, fb, e, hb), e, Some(fb))
        }
        2 => {
            let (fpp, e) = (c.g.flog(1e-16, 0.97), c.g.us(1, 12));
            let f = Cf::from_entries_per_index_with_hashers(n, fpp, e, hb);
            let fb = f.fingerprint_bit_count();
            // enough bits for the requested probability at full load, and not more than two to spare
            let got = match_fpp(fb, 2.0 * e as f64);
            ensure!(got <= fpp * (1.0 + 1e-6), "fpp {} e {}: {} bits give {} at full load", fpp, e, fb, got);
            ensure!(
                fb <= 3 || match_fpp(fb - 2, 2.0 * e as f64) > fpp * (1.0 - 1e-6),
                "fpp {} e {}: {} bits where {} suffice", fpp, e, fb, fb - 2
            );
            c.label_if(fpp < 1e-12, "fpp below 1e-12");
            (f, e, None)
        }
        _ => {
            let fb = c.g.us(2, 64);
            // a probability that some number of entries satisfies
            let most = if c.g.chance(1, 6) { 100_000 } else { 20 };
            let want = c.g.logu(1, most);
            let extra = c.g.unit(0.02, 0.98);
            let fpp = match_fpp(fb, 2.0 * (want as f64 + extra)).min(0.99);
            let want = (((-fpp).ln_1p() / (-single(fb)).ln_1p()) / 2.0).floor() as usize;
            if want == 0 {
                return Ok(());
            }
            let f = Cf::from_fingerprint_bit_count_with_hashers(n, fpp, fb, hb);
            let e = f.entries_per_index();
            tr!(c, "n {} fpp {:e} f {} -> e {} (expected {})", n, fpp, fb, e, want);
            ensure!(e >= 1, "no entries");
            ensure!(
                match_fpp(fb, 2.0 * e as f64) <= fpp * (1.0 + 1e-6),
                "f {} fpp {}: {} entries per bucket give {} at full load", fb, fpp, e, match_fpp(fb, 2.0 * e as f64)
            );
            // as many entries as the probability allows; no more than the items need
            ensure!(e == want || e >= n.min(want), "f {} fpp {}: {} entries per bucket where {} are allowed", fb, fpp, e, want);
            c.label_if(fb >= 50, "wide fingerprints");
            c.label_if(e > 256, "more than 256 entries per bucket");
            (f, e, Some(fb))
        }
    };
    let n = if variant == 1 { n.min(20_000) } else { n };
    tr!(c, "variant {} n {} e {} f {:?} -> buckets {} capacity {}", variant, n, e, fb, f.bucket_len(), f.capacity());
    ensure_eq!(f.entries_per_index(), e, "entries_per_index");
    if let Some(fb) = fb {
        ensure_eq!(f.fingerprint_bit_count(), fb, "fingerprint_bit_count");
    }
    ensure_eq!(f.bucket_len(), npow2(n, e), "bucket_len for {} items with {} entries", n, e);
    ensure_eq!(f.capacity(), f.bucket_len() * e, "capacity vs. bucket_len * entries_per_index (n {} e {} f {})", n, e, f.fingerprint_bit_count());
    ensure!(f.capacity() >= n, "capacity below the item count");
    ensure_eq!(f.len(), 0, "len of a new filter");
    ensure_eq!(f.extra_items_len(), 0, "overflow of a new filter");
    ensure!(f.estimated_fpp() == 0.0, "estimated_fpp of a new filter");
    // the formula behind estimated_fpp at partial load
    let mut f = f;
    let mut s = Sm::new(c.g.seed());
    let k = c.g.us(1, 30);
    for _ in 0..k {
        f.insert(&s.next());
    }
    let ratio = f.len() as f64 / (f.bucket_len() * e) as f64;
    let expect = match_fpp(f.fingerprint_bit_count(), 2.0 * e as f64 * ratio);
    ensure!(
        (f.estimated_fpp() - expect).abs() <= 1e-6 * expect + 1e-12,
        "estimated_fpp {} at load {} instead of {}", f.estimated_fpp(), ratio, expect
    );
    c.nontrivial();
    Ok(())
}

fn c07_measured(c: &mut Case) -> R {
    let n = c.g.logu(300, 12000);
    let variant = c.g.idx(4);
    let s0 = c.g.seed();
    let mut s = Sm::new(s0);
    let sipk = c.g.chance(1, 2);
    let hb = |s: &mut Sm| {
        if sipk {
            [HB::Sip(sip(s.next(), s.next())), HB::Sip(sip(s.next(), s.next()))]
        } else {
            [HB::Mix(s.next()), HB::Mix(s.next())]
        }
    };
    let (fpp, e, fb) = (c.g.flog(0.001, 0.3), c.g.us(1, 8), c.g.us(4, 12));
    let mk = |s: &mut Sm| -> Cf {
        let h = hb(s);
        match variant {
            0 => Cf::with_hashers(n, h),
            1 => Cf::from_parameters_with_hashers(n, fb, e, h),
            2 => Cf::from_entries_per_index_with_hashers(n, fpp, e, h),
            _ => Cf::from_fingerprint_bit_count_with_hashers(n, match_fpp(fb, 2.0 * e as f64 + 0.2), fb, h),
        }
    };
    let probe = mk(&mut s);
    let (fbits, ent) = (probe.fingerprint_bit_count(), probe.entries_per_index());
    let cap = probe.bucket_len() * ent;
    // load: up to the whole table; with one entry per bucket overflow starts early and is searched linearly
    let fill = match ent {
        1 => c.g.unit(0.2, 0.45),
        2 => c.g.unit(0.2, 0.8),
        3 => c.g.unit(0.2, 0.88),
        _ => {
            if c.g.chance(1, 3) {
                1.0
            } else {
                c.g.unit(0.2, 0.94)
            }
        }
    };
    let target = (cap as f64 * fill) as usize;
    if target < 50 {
        return Ok(());
    }
    let reps = (120_000 / target).clamp(1, 8);
    let per = 60_000usize;
    let (mut fp, mut q, mut est, mut stored) = (0.0, 0.0, 0.0, 0.0);
    for _ in 0..reps {
        let mut f = mk(&mut s);
        let mut tries = 0;
        while f.len() + f.extra_items_len() < target && tries < 3 * target {
            f.insert(&(s.next() | 1));
            tries += 1;
        }
        fp += (0..per).filter(|_| f.contains(&(s.next() & !1))).count() as f64;
        q += per as f64;
        est += f.estimated_fpp() / reps as f64;
        stored += (f.len() + f.extra_items_len()) as f64 / reps as f64;
    }
    // examined entries per query: all stored entries of both buckets; inside one bucket pair equal fingerprints cannot
    // repeat, hence the rate is entries * single (linear), slightly above the formula for independent entries
    let entries = 2.0 * ent as f64 * stored / cap as f64;
    let linear = (entries * single(fbits)).min(1.0);
    let buckets = (cap / ent) as f64;
    let slack = 0.05 + 2.0 / buckets + 2.0 * (2.0f64.powi(-(fbits as i32)) / buckets).sqrt();
    tr!(c, "variant {} n {} fpp {:.4} e {} f {} fill {:.2}: measured {:.5} linear {:.5} estimated {:.5}", variant, n, fpp, ent, fbits, fill, fp / q, linear, est);
    ensure!(
        fp <= upper(q, linear * (1.0 + slack)),
        "f {} e {} load {:.2}: measured false positive rate {:.5}, theory {:.5}", fbits, ent, stored / cap as f64, fp / q, linear
    );
    ensure!(
        fp >= lower(q, linear * (1.0 - slack - 0.02)),
        "f {} e {} load {:.2}: measured rate {:.5} far below theory {:.5}", fbits, ent, stored / cap as f64, fp / q, linear
    );
    if variant == 2 && stored <= cap as f64 {
        ensure!(fp <= upper(q, fpp), "requested {} but measured {:.5} at load {:.2}", fpp, fp / q, stored / cap as f64);
    }
    // estimated_fpp predicts it, up to the linear / independent difference and overflow entries
    let hi = (linear / match_fpp(fbits, entries)).max(1.0) * (1.0 + slack) * (stored / (stored.min(cap as f64) * 0.9)).max(1.0);
    ensure!(
        fp <= upper(q, est * hi) && fp >= lower(q, est * (1.0 - slack - 0.02)),
        "f {} e {} load {:.2}: estimated_fpp {:.5} but measured {:.5}", fbits, ent, stored / cap as f64, est, fp / q
    );
    c.label_if(fill > 0.9, "load above 0.9");
    c.label_if(linear > 0.05, "rate above 5%");
    c.nontrivial();
    Ok(())
}

/// One bucket: what a stored fingerprint matches is known exactly.
fn c07_single(c: &mut Case) -> R {
    let fb = c.g.us(1, 9);
    let e = c.g.us(1, 4);
    let n = c.g.us(1, e);
    let sipk = c.g.chance(1, 2);
    let mut s = Sm::new(c.g.seed());
    let reps = 600;
    let per = if fb > 4 { 400 } else { 150 };
    let (mut fp, mut want, mut var) = (0.0, 0.0, 0.0);
    for _ in 0..reps {
        let h = if sipk {
            [HB::Sip(sip(s.next(), s.next())), HB::Sip(sip(s.next(), s.next()))]
        } else {
            [HB::Mix(s.next()), HB::Mix(s.next())]
        };
        let mut f = Cf::from_parameters_with_hashers(e, fb, e, h);
        ensure_eq!(f.bucket_len(), 1, "buckets for {} items in buckets of {}", e, e);
        for _ in 0..n {
            f.insert(&(s.next() | 1));
        }
        let p = (f.len() as f64 * single(fb)).min(1.0);
        fp += (0..per).filter(|_| f.contains(&(s.next() & !1))).count() as f64;
        want += p * per as f64;
        var += p * (1.0 - p) * per as f64;
    }
    let lim = SIGMA * var.sqrt() + SIGMA * SIGMA / 2.0;
    tr!(c, "f {} e {} items {}: {} matches, expected {:.1} +- {:.1}", fb, e, n, fp, want, lim);
    ensure!(
        (fp - want).abs() <= lim,
        "{}-bit fingerprints, {} items in one bucket: {} of {} queries match, expected {:.1} +- {:.1}", fb, n, fp, reps * per, want, lim
    );
    c.label_if(fb <= 4, "at most four bits");
    c.nontrivial();
    Ok(())
}

/// All bits of a fingerprint tell items apart.
fn c07_width(c: &mut Case) -> R {
    let fb = c.g.us(20, 64);
    let e = c.g.us(1, 4);
    let mut f = Cf::from_parameters_with_hashers(e, fb, e, [HB::Ident; 2]);
    ensure_eq!((f.bucket_len(), f.fingerprint_bit_count()), (1, fb), "geometry");
    // neither the item nor a neighbour of it may have only zeros in its fingerprint
    let x = Sm::new(c.g.seed()).next();
    f.insert(&x);
    ensure!(f.contains(&x), "{} is absent after its insertion", x);
    // both hashes of a key are the key, and there is one bucket: only fingerprints can differ
    let apart = (0..64).filter(|j| !f.contains(&(x ^ 1u64 << j))).count();
    tr!(c, "f {} item {:x}: {} of 64 neighbours told apart", fb, x, apart);
    ensure!(apart >= fb, "fingerprints of {} bits tell only {} single-bit changes of a hash apart", fb, apart);
    c.label_if(fb > 32, "more than 32 bits");
    c.nontrivial();
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "every constructor with random arguments against the documented geometry and the closed-form probability (geometry), and \
               filters filled to random loads queried with non-members (measured, 6 sigma), one-bucket filters whose rate is known exactly (single), \
               items whose hashes differ in one bit (width); non-trivial: every geometry case, every measured \
               case with at least 50 entries",
        assumptions: &[
            "the probability formula treats examined entries as independent, which understates the rate for requested probabilities above 0.1",
            "keys are pseudo-random and the builders well distributed in measured cases",
        ],
        scenarios: vec![
            Scenario { name: "geometry", cases: 48000, thorough: 20, f: c07_geometry },
            Scenario { name: "single", cases: 450, thorough: 20, f: c07_single },
            Scenario { name: "width", cases: 27000, thorough: 10, f: c07_width },
            Scenario { name: "measured", cases: 480, thorough: 12, f: c07_measured },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C08

/// Load factor (entries over slots) that must be reached without overflow by a table of at least 256 buckets:
/// about eight standard deviations below the mean of 512-displacement partial-key cuckoo hashing.
fn threshold(e: usize, log: usize) -> f64 {
    match (e, log) {
        (1, _) => 0.12,
        (2, 8) => 0.75,
        (2, 9) => 0.78,
        (2, _) => 0.80,
        (3, 8) => 0.87,
        (3, _) => 0.89,
        (4, 8) => 0.91,
        (4, _) => 0.93,
        (5, _) => 0.94,
        (6, _) => 0.955,
        (7, _) => 0.965,
        _ => 0.97,
    }
}

fn c08_load(c: &mut Case) -> R {
    let wide = c.g.chance(1, 8);
    let e = if wide { c.g.logu(11, 100) } else { c.g.us(1, 10) };
    let log = if wide { c.g.us(8, 10) } else { c.g.us(8, 13) };
    c.label_if(wide, "more than ten entries per bucket");
    let fb = c.g.us(12, 64);
    let hb = good_pair(&mut c.g);
    let items = e << log;
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    ensure_eq!(f.bucket_len(), 1 << log, "buckets");
    let slots = f.bucket_len() * e;
    let mut s = Sm::new(c.g.seed());
    let seq = c.g.chance(1, 2);
    let base = s.next();
    let mut i = 0u64;
    let mut at = None;
    // optional churn before, so that the claim is also tested on a used table
    let churn = if c.g.chance(1, 3) { slots / 2 } else { 0 };
    let mut live: Vec<u64> = Vec::new();
    let mut keys: Vec<u64> = Vec::new();
    while f.len() < slots && keys.len() < 2 * slots {
        let k = if seq { base.wrapping_add(i) } else { s.next() };
        i += 1;
        if f.contains(&k) {
            continue;
        }
        f.insert(&k);
        keys.push(k);
        live.push(k);
        if f.extra_items_len() > 0 {
            at = Some(f.len() as f64 / slots as f64);
            break;
        }
        if keys.len() <= churn && keys.len() % 3 == 0 {
            let j = s.below(live.len() as u64) as usize;
            let k = live.swap_remove(j);
            f.remove(&k);
        }
    }
    let reached = at.unwrap_or(1.0);
    tr!(c, "e {} buckets 2^{} f {}: first overflow at load {:.4}", e, log, fb, reached);
    let need = threshold(e, log);
    ensure!(reached >= need, "{} entries x 2^{} buckets, {} bit fingerprints: first overflow at load {:.3}", e, log, fb, reached);
    // beyond the threshold items are still accepted and found
    for _ in 0..200 {
        let k = s.next();
        if !f.contains(&k) {
            f.insert(&k);
            live.push(k);
        }
    }
    for k in &live {
        ensure!(f.contains(k), "{} lost after overflow", k);
    }
    ensure_eq!(f.len() + f.extra_items_len(), live.len(), "entries");
    c.nontrivial();
    Ok(())
}

/// Tables of up to a million buckets.
fn c08_huge(c: &mut Case) -> R {
    let e = c.g.us(2, 8);
    let log = c.g.us(14, 20).min(if e > 4 { 18 } else { 20 });
    let fb = c.g.us(16, 60);
    let hb = good_pair(&mut c.g);
    let mut f = Cf::from_parameters_with_hashers(e << log, fb, e, hb);
    let slots = f.bucket_len() * e;
    let mut s = Sm::new(c.g.seed());
    let seed = s;
    let mut n = 0;
    while f.extra_items_len() == 0 && n < 2 * slots {
        f.insert(&s.next());
        n += 1;
    }
    let load = f.len() as f64 / slots as f64;
    let need = threshold(e, 8).min(threshold(e, 13));
    tr!(c, "e {} buckets 2^{} f {} {:?}: first overflow at load {:.4}", e, log, fb, hb, load);
    ensure!(load >= need, "{} entries x 2^{} buckets, {} bit fingerprints: first overflow at load {:.3}", e, log, fb, load);
    let mut s = seed;
    ensure!((0..n).all(|_| f.contains(&s.next())), "an item is lost");
    c.label_if(log > 16, "more than 2^16 buckets");
    c.nontrivial();
    Ok(())
}

fn c08_mean(c: &mut Case) -> R {
    // the average over several tables is sharper than a single fill
    let (e, need) = c.g.of(&[(2usize, 0.86), (3, 0.935), (4, 0.958), (5, 0.97), (8, 0.985)]);
    let fb = c.g.us(16, 48);
    let mut s = Sm::new(c.g.seed());
    let tables = 12;
    let mut sum = 0.0;
    for _ in 0..tables {
        let hb = [HB::Mix(s.next()), HB::Mix(s.next())];
        let mut f = Cf::from_parameters_with_hashers(e << 9, fb, e, hb);
        let slots = f.bucket_len() * e;
        while f.extra_items_len() == 0 && f.len() < slots {
            f.insert(&s.next());
        }
        sum += f.len() as f64 / slots as f64;
    }
    let mean = sum / tables as f64;
    tr!(c, "e {} f {}: mean load at the first overflow {:.4}", e, fb, mean);
    ensure!(mean >= need, "{} entries x 512 buckets: mean load at the first overflow over {} tables is {:.4}", e, tables, mean);
    c.nontrivial();
    Ok(())
}

/// Partial-key cuckoo hashing written from its description: two buckets per item, the second one the first xor a hash
/// of the fingerprint; when both are full, up to 512 displacements of a random entry to its other bucket.
/// Returns (stored entries at the first overflow, overflow entries after as many items as there are slots).
fn reference_table(s: &mut Sm, e: usize, log: usize) -> (usize, usize) {
    let b = 1usize << log;
    let mut table: Vec<Vec<u64>> = vec![Vec::with_capacity(e); b];
    let alt = |i: usize, fp: u64| (i ^ (Sm::new(fp).next() as usize)) & (b - 1);
    let (mut stored, mut first, mut over) = (0, None, 0);
    for _ in 0..b * e {
        let mut fp = s.next();
        let mut i = s.next() as usize & (b - 1);
        let j = alt(i, fp);
        let home = if table[i].len() < e { Some(i) } else if table[j].len() < e { Some(j) } else { None };
        if let Some(h) = home {
            table[h].push(fp);
            stored += 1;
            continue;
        }
        if s.next() >> 63 == 1 {
            i = j;
        }
        let mut placed = false;
        for _ in 0..512 {
            let k = s.below(e as u64) as usize;
            std::mem::swap(&mut table[i][k], &mut fp);
            i = alt(i, fp);
            if table[i].len() < e {
                table[i].push(fp);
                placed = true;
                break;
            }
        }
        if placed {
            stored += 1;
        } else {
            first = first.or(Some(stored));
            over += 1;
        }
    }
    (first.unwrap_or(stored), over)
}

fn c08_reference(c: &mut Case) -> R {
    // differential in distribution: many equal tables against as many simulated by the reference above
    let e = c.g.us(1, 8);
    let log = c.g.us(3, 9).min(if e > 4 { 8 } else { 9 });
    let fb = c.g.us(40, 64);
    let seq = c.g.chance(1, 2);
    let mut s = Sm::new(c.g.seed());
    let tables = (1usize << 17 >> log) / e;
    let tables = tables.clamp(60, 1200);
    // sums and sums of squares of: first overflow (real, reference), overflow entries (real, reference)
    let (mut sum, mut sq) = ([0.0f64; 4], [0.0f64; 4]);
    let slots = e << log;
    for _ in 0..tables {
        let hb = [HB::Mix(s.next()), HB::Mix(s.next())];
        let mut f = Cf::from_parameters_with_hashers(slots, fb, e, hb);
        ensure_eq!(f.capacity(), slots, "slots");
        let base = s.next();
        let mut first = None;
        for i in 0..slots {
            let before = f.len();
            f.insert(&(if seq { base.wrapping_add(i as u64) } else { s.next() }));
            if first.is_none() && f.extra_items_len() > 0 {
                first = Some(before);
            }
        }
        let r = reference_table(&mut s, e, log);
        let v = [first.unwrap_or(f.len()), r.0, f.extra_items_len(), r.1];
        for i in 0..4 {
            sum[i] += v[i] as f64;
            sq[i] += (v[i] * v[i]) as f64;
        }
    }
    let n = tables as f64;
    let mean = |i: usize| sum[i] / n;
    let var = |i: usize| (sq[i] / n - mean(i) * mean(i)).max(0.0) * n / (n - 1.0);
    let se = |i: usize, j: usize| ((var(i) + var(j)) / n).sqrt();
    tr!(
        c,
        "e {} buckets 2^{} {} tables: first overflow after {:.2} (reference {:.2}), {:.2} overflow entries (reference {:.2})",
        e, log, tables, mean(0), mean(1), mean(2), mean(3)
    );
    ensure!(
        mean(0) >= mean(1) - 6.5 * se(0, 1) - 0.02,
        "{} entries x 2^{} buckets: over {} tables the first overflow comes at {:.2} of {} entries on average, with 512 displacements it comes at {:.2}",
        e, log, tables, mean(0), slots, mean(1)
    );
    ensure!(
        mean(2) <= mean(3) + 6.5 * se(2, 3) + 0.02,
        "{} entries x 2^{} buckets: {} tables offered as many items as slots have {:.2} overflow entries on average, with 512 displacements {:.2}",
        e, log, tables, mean(2), mean(3)
    );
    c.label_if(e == 1, "one entry per bucket");
    c.nontrivial();
    Ok(())
}

fn c08_tiny(c: &mut Case) -> R {
    // overflow needs full buckets: with a single bucket exactly when it is full; in general never before e entries
    let e = if c.g.chance(1, 8) { c.g.us(9, 70) } else { c.g.us(1, 8) };
    let items = c.g.us(1, 8 * e);
    let fb = c.g.us(4, 32);
    let hb = good_pair(&mut c.g);
    let mut f = Cf::from_parameters_with_hashers(items, fb, e, hb);
    let b = f.bucket_len();
    let nk = c.g.us(1, 12 * e);
    let keys = pool(&mut c.g, nk);
    tr!(c, "e {} buckets {} f {} keys {}", e, b, fb, nk);
    let mut over = false;
    let mut live: Vec<u64> = vec![];
    for k in &keys {
        if c.g.chance(1, 6) && !live.is_empty() {
            let j = c.g.idx(live.len());
            let k = live.swap_remove(j);
            f.remove(&k);
        }
        let before = f.len();
        let (ex, had) = (f.extra_items_len(), f.contains(k));
        f.insert(k);
        if !had {
            live.push(*k);
        }
        if f.extra_items_len() > ex {
            over = true;
            ensure!(before >= e, "overflow with {} entries stored although a bucket holds {}", before, e);
            ensure_eq!(f.len(), before, "an overflowing insertion changed the number of stored entries");
            ensure!(b > 1 || before == e, "single bucket overflowed at {} of {}", before, e);
        } else if !had {
            ensure_eq!(f.len(), before + 1, "entry neither stored nor in the overflow list");
        }
    }
    c.label_if(over, "overflowed");
    if over {
        c.nontrivial();
    }
    Ok(())
}

fn c08_refill(c: &mut Case) -> R {
    // an insertion overflows only if both its buckets are full: with one item removed from a full single-pair
    // table (two buckets or one), the freed slot is used again
    let e = if c.g.chance(1, 8) { c.g.us(9, 300) } else { c.g.us(1, 8) };
    let hb = good_pair(&mut c.g);
    let mut f = Cf::from_parameters_with_hashers(e, c.g.us(if e > 8 { 28 } else { 16 }, 40), e, hb);
    ensure_eq!(f.bucket_len(), 1, "one bucket");
    let mut s = Sm::new(c.g.seed());
    let mut live = Vec::new();
    while live.len() < e {
        let k = s.next();
        if !f.contains(&k) {
            f.insert(&k);
            live.push(k);
            ensure_eq!(f.len(), live.len(), "stored entries before the bucket is full");
            ensure_eq!(f.extra_items_len(), 0, "overflow before the bucket is full");
        }
    }
    let rounds = c.g.us(1, 20);
    for _ in 0..rounds {
        let j = c.g.idx(live.len());
        let k = live.swap_remove(j);
        f.remove(&k);
        ensure_eq!(f.len(), e - 1, "len after removal");
        loop {
            let k = s.next();
            if !f.contains(&k) {
                f.insert(&k);
                live.push(k);
                break;
            }
        }
        ensure_eq!(f.len(), e, "the freed slot was not reused");
        ensure_eq!(f.extra_items_len(), 0, "overflow although a slot was free");
    }
    c.nontrivial();
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "tables of 2^8-2^13 buckets with 1-10 entries and 12-64 bit fingerprints filled until the first overflow entry, optionally \
               after churn (load); tiny tables overfilled step by step (tiny); single buckets emptied and refilled (refill); \
               up to 2^20 buckets (huge); mean load at the first overflow and number of overflow entries against simulated references (mean, reference); \
               non-trivial: tiny cases that overflowed, every case of the others",
        assumptions: &[
            "thresholds are those of partial-key cuckoo hashing with 512 displacements, lowered by the spread seen in small tables",
            "keys pseudo-random or consecutive, builders well distributed",
        ],
        scenarios: vec![
            Scenario { name: "load", cases: 1500, thorough: 12, f: c08_load },
            Scenario { name: "huge", cases: 62, thorough: 12, f: c08_huge },
            Scenario { name: "mean", cases: 600, thorough: 12, f: c08_mean },
            Scenario { name: "reference", cases: 160, thorough: 12, f: c08_reference },
            Scenario { name: "tiny", cases: 22000, thorough: 20, f: c08_tiny },
            Scenario { name: "refill", cases: 36000, thorough: 20, f: c08_refill },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C09

fn gen_scf(c: &mut Case, max: usize) -> (Params, Scf) {
    let scale = c.g.logu(1, max);
    let mut p = gen_params(&mut c.g, Kind::ScalableCuckoo, scale);
    if c.g.chance(1, 2) {
        // wide collisions between layers need few fingerprint bits
        p.f = c.g.unit(0.2, 0.9);
        p.tight = c.g.unit(0.4, 1.0);
    }
    let f = p.scalable_cuckoo();
    (p, f)
}

fn c09_history(c: &mut Case) -> R {
    let (p, mut f) = gen_scf(c, 24);
    let n = c.g.us(2, 150);
    let keys = pool(&mut c.g, n);
    tr!(c, "{:?} {} keys", p, n);
    let first_cap = f.capacity();
    ensure_eq!(f.filter_count(), 1, "initial layers");
    let mut live: Vec<u64> = Vec::new();
    let (mut removed, mut layers, mut clears) = (0, 1, 0);
    let mut filling = true;
    while c.g.more(110) {
        if c.g.chance(1, 40) {
            filling = !filling;
        }
        let grown_out = f.capacity() > 1 << 18;
        match c.g.weighted(&[if filling { 16 } else { 4 }, if filling { 3 } else { 12 }, 2, 1]) {
            0 if !grown_out => {
                let k = *c.g.pick(&keys);
                let had = f.contains(&k);
                ensure!(had || !live.contains(&k), "accepted item {} lost", k);
                f.insert(&k);
                if !had {
                    live.push(k);
                }
                tr!(c, "insert {} (present before: {}) layers {}", k, had, f.filter_count());
                ensure!(f.contains(&k), "item {} absent right after its insertion", k);
            }
            0 | 1 => {
                if !live.is_empty() {
                    let i = c.g.idx(live.len());
                    let k = live.swap_remove(i);
                    f.remove(&k);
                    removed += 1;
                    tr!(c, "remove live {}", k);
                }
            }
            2 => {
                let k = *c.g.pick(&keys);
                if !f.contains(&k) {
                    f.remove(&k);
                    tr!(c, "remove absent {}", k);
                }
            }
            _ => match c.g.idx(3) {
                0 => {
                    f.clear();
                    live.clear();
                    clears += 1;
                    tr!(c, "clear");
                    ensure_eq!(f.filter_count(), 1, "layers after clear");
                    ensure_eq!(f.capacity(), first_cap, "capacity after clear");
                    ensure!(f.is_empty() && f.len() == 0, "not empty after clear");
                }
                1 => f = f.clone(),
                _ => f = bincode::deserialize(&bincode::serialize(&f).unwrap()).unwrap(),
            },
        }
        layers = layers.max(f.filter_count());
        ensure_eq!(f.len(), live.len(), "len vs. live accepted items ({} layers)", f.filter_count());
        ensure_eq!(f.is_empty(), live.is_empty(), "is_empty");
        for k in &live {
            ensure!(f.contains(k), "accepted item {} lost ({} live, {} layers)", k, live.len(), f.filter_count());
        }
    }
    if layers >= 2 && live.len() + removed >= 5 {
        c.nontrivial();
    }
    c.label_if(layers >= 2, "2+ layers");
    c.label_if(layers >= 4, "4+ layers");
    c.label_if(removed > 3 && layers >= 2, "removed with 2+ layers");
    c.label_if(clears > 0, "cleared");
    while let Some(k) = live.pop() {
        f.remove(&k);
        ensure_eq!(f.len(), live.len(), "len while removing everything");
    }
    for k in &keys {
        ensure!(!f.contains(k), "{} reported by an emptied filter", k);
    }
    Ok(())
}

fn c09_bulk(c: &mut Case) -> R {
    let (p, f) = gen_scf(c, 300);
    let n = c.g.logu(100, 3000);
    c09_run(c, p, f, n, 1 << 20)
}
/// Layers of up to a million slots.
fn c09_large(c: &mut Case) -> R {
    let mut p = gen_params(&mut c.g, Kind::ScalableCuckoo, 100_000);
    p.hb = good_pair(&mut c.g);
    if c.g.chance(2, 3) {
        // rather one layer of more than 2^16 slots than many small ones
        p.a = c.g.logu(10_000, 150_000);
    }
    let f = p.scalable_cuckoo();
    let n = c.g.logu(20_000, 200_000);
    c.label_if(f.capacity() > 1 << 16, "first layer above 2^16");
    c09_run(c, p, f, n, 1 << 22)
}
fn c09_run(c: &mut Case, p: Params, mut f: Scf, n: usize, most: usize) -> R {
    let mut s = Sm::new(c.g.seed());
    tr!(c, "{:?} {} insertions", p, n);
    let mut live = Vec::new();
    for _ in 0..n {
        let k = s.next();
        if !f.contains(&k) {
            live.push(k);
        }
        f.insert(&k);
        if f.filter_count() > 40 || f.capacity() > most {
            break;
        }
    }
    let layers = f.filter_count();
    c.label_if(layers >= 3, "3+ layers");
    c.label_if(layers >= 10, "10+ layers");
    ensure_eq!(f.len(), live.len(), "len after bulk insertion");
    for round in 0..4 {
        for k in &live {
            ensure!(f.contains(k), "accepted item {} lost in round {} ({} layers)", k, round, f.filter_count());
        }
        s.shuffle(&mut live);
        let keep = s.below(live.len() as u64 + 1) as usize;
        for k in live.drain(keep..) {
            f.remove(&k);
        }
        ensure_eq!(f.len(), live.len(), "len after removals");
        for _ in 0..100 {
            let k = s.next();
            if !f.contains(&k) {
                f.remove(&k);
            }
        }
        ensure_eq!(f.len(), live.len(), "len after removing absent items");
    }
    for k in &live {
        ensure!(f.contains(k), "accepted item {} lost at the end", k);
    }
    if layers >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "histories of insert/remove live/remove absent/clear/clone/serde over scalable cuckoo filters small enough to grow often, with \
               low-bit layers so that items collide across layers, and bulk runs with removals; non-trivial: at least two layers and 5 accepted \
               items (history), two layers (bulk, large)",
        assumptions: &[
            "only items reported absent before their insertion are removed",
            "the fingerprint hash builder is not stuck on all-zero fingerprints",
        ],
        scenarios: vec![
            Scenario { name: "history", cases: 83000, thorough: 20, f: c09_history },
            Scenario { name: "bulk", cases: 4000, thorough: 20, f: c09_bulk },
            Scenario { name: "large", cases: 500, thorough: 20, f: c09_large },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C10

fn c10_schedule(c: &mut Case) -> R {
    let scale = c.g.logu(1, 200);
    let n = c.g.logu(20, 1500);
    c10_growth(c, scale, n)
}
fn c10_large(c: &mut Case) -> R {
    let scale = c.g.logu(300, 60_000);
    let n = c.g.logu(4000, 150_000);
    c10_growth(c, scale, n)
}
fn c10_growth(c: &mut Case, scale: usize, n: usize) -> R {
    let p = {
        let mut p = gen_params(&mut c.g, Kind::ScalableCuckoo, scale);
        p.hb = good_pair(&mut c.g);
        p
    };
    let mut f = p.scalable_cuckoo();
    let e = if p.variant == 0 { 4 } else { p.b };
    let mut layer_fpp = p.f;
    let layer = |n: usize, fpp: f64| Cf::from_entries_per_index_with_hashers(n, fpp, e, p.hb);
    let l0 = layer(p.a, p.f);
    let (mut cap, mut bits) = (l0.bucket_len() * e, l0.fingerprint_bit_count());
    ensure_eq!(cap, npow2(p.a, e) * e, "first layer");
    let mut total_cap = cap;
    let mut layers = 1usize;
    let mut in_last = 0usize;
    let mut s = Sm::new(c.g.seed());
    tr!(c, "{:?} e {} {} insertions", p, e, n);
    ensure_eq!(f.capacity(), total_cap, "initial capacity");
    ensure_eq!(f.entries_per_index(), e, "entries_per_index");
    let mut minload: f64 = 1.0;
    let mut pending: Option<f64> = None; // 1 - estimated_fpp before the first insertion into the newest layer
    for i in 0..n {
        let k = s.next();
        let had = f.contains(&k);
        let before = 1.0 - f.estimated_fpp();
        f.insert(&k);
        let grew = f.filter_count() - layers;
        ensure!(grew <= 1, "{} layers added by one insertion", grew);
        if had {
            ensure_eq!(grew, 0, "growth by inserting a present item");
            continue;
        }
        if in_last == 0 {
            pending = Some(before);
        }
        in_last += 1;
        if let (Some(b), true) = (pending.take(), cap > 1) {
            // the first entry of a layer changes the estimate by single^(2e/cap): its fingerprint size
            let step = (2.0 * e as f64 / cap as f64 * (-single(bits)).ln_1p()).exp();
            let got = (1.0 - f.estimated_fpp()) / b;
            if 1.0 - step > 1e-9 {
                ensure!(
                    ((1.0 - got) / (1.0 - step) - 1.0).abs() < 1e-3,
                    "first entry of layer {} changes the estimate by {:e}; fingerprints of {} bits (target {}) would give {:e}",
                    layers, 1.0 - got, bits, layer_fpp, 1.0 - step
                );
                c.label("layer target checked");
            }
        }
        // the estimate counts stored entries only: an overflow entry leaves it as it was
        let step = (2.0 * e as f64 / cap as f64 * (-single(bits)).ln_1p()).exp();
        if (1.0 - step) * before > 1e-11 {
            let stored = before - (1.0 - f.estimated_fpp()) > 0.5 * (1.0 - step) * before;
            if grew == 0 {
                ensure!(stored, "insertion {} overflowed the newest layer ({} of {} slots) without growth", i, in_last, cap);
            } else if in_last < cap {
                ensure!(!stored, "layer of capacity {} grew at {} entries without overflowing", cap, in_last);
                c.label("growth by overflow seen");
            }
        }
        if grew == 0 {
            ensure!(in_last < cap, "newest layer of capacity {} holds {} entries without growth (insertion {})", cap, in_last, i);
        } else {
            // only when full or overflowing
            ensure!(cap > e || in_last == cap, "single-bucket layer of {} grew at {} entries", cap, in_last);
            ensure!(in_last > e || in_last == cap, "layer of capacity {} grew at {} entries", cap, in_last);
            if cap / e >= 256 && bits >= 12 && e >= 2 {
                minload = minload.min(in_last as f64 / cap as f64 / threshold(e, 8));
                ensure!(minload >= 1.0, "layer of capacity {} (e {}) grew at {} entries", cap, e, in_last);
            }
            let want = (cap as f64 * p.growth).ceil() as usize;
            layer_fpp = p.f * p.tight.powi(layers as i32);
            let nl = layer(want, layer_fpp);
            let new_cap = f.capacity() - total_cap;
            ensure_eq!(new_cap, npow2(want, e) * e, "capacity of the layer grown from {} by {}", cap, p.growth);
            cap = new_cap;
            // do not rely on the side of a rounding boundary
            let b2 = layer(want, layer_fpp * (1.0 + 1e-9)).fingerprint_bit_count();
            let b3 = layer(want, layer_fpp * (1.0 - 1e-9)).fingerprint_bit_count();
            bits = nl.fingerprint_bit_count();
            total_cap += cap;
            layers += 1;
            in_last = 0;
            if b2 != b3 {
                c.label("stopped at a rounding boundary");
                break;
            }
            if layers > 60 || total_cap > 1 << 22 {
                break;
            }
        }
        ensure_eq!(f.capacity(), total_cap, "capacity");
    }
    c.label_if(layers >= 2, "grew");
    c.label_if(layers >= 5, "grew 4+");
    c.label_if(cap > 1 << 16, "layer of more than 2^16 slots");
    if layers >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn c10_many(c: &mut Case) -> R {
    // many growths: tiny constant-size layers, targets tightening towards zero
    let e = c.g.us(1, 4);
    let items = c.g.us(1, 8);
    let fpp = c.g.flog(1e-12, 0.5);
    let tight = c.g.unit(0.05, 0.9);
    let growth = if c.g.chance(1, 3) { c.g.unit(1.0, 1.2) } else { 1.0 };
    let hb = good_pair(&mut c.g);
    let mut f = Scf::from_entries_per_index_with_hashers(items, fpp, e, growth, tight, hb);
    let n = c.g.us(50, 500);
    tr!(c, "items {} fpp {:e} e {} growth {} tightening {} n {}", items, fpp, e, growth, tight, n);
    let mut s = Sm::new(c.g.seed());
    let mut live = vec![];
    for _ in 0..n {
        let k = s.next();
        if !f.contains(&k) {
            live.push(k);
        }
        f.insert(&k);
        if f.filter_count() > 80 || f.capacity() > 1 << 20 {
            break;
        }
    }
    ensure_eq!(f.len(), live.len(), "len");
    ensure!(live.iter().all(|k| f.contains(k)), "accepted item lost");
    let l = f.filter_count();
    let compound = (fpp / (1.0 - tight)).min(1.0);
    let q = 3000.0;
    let fp = (0..3000).filter(|_| f.contains(&s.next())).count() as f64;
    ensure!(fp <= upper(q, compound), "{} layers: measured {:.4} exceeds {:.4}", l, fp / q, compound);
    c.label_if(l >= 20, "20+ layers");
    c.label_if(fpp * tight.powi(l as i32) < 1e-17, "target below 1e-17");
    if l >= 5 {
        c.nontrivial();
    }
    Ok(())
}

fn c10_bound(c: &mut Case) -> R {
    let items = c.g.logu(50, 4000);
    let fpp = c.g.flog(0.002, 0.25);
    let e = c.g.us(1, 8);
    let growth = c.g.unit(1.0, 3.0);
    let tight = c.g.unit(0.2, 0.92);
    let hb = good_pair(&mut c.g);
    let mut f = Scf::from_entries_per_index_with_hashers(items, fpp, e, growth, tight, hb);
    let n = c.g.logu(500, 12000);
    let mut s = Sm::new(c.g.seed());
    for _ in 0..n {
        f.insert(&(s.next() | 1));
        if f.filter_count() > 15 {
            break;
        }
    }
    let l = f.filter_count();
    let q = 30000;
    let fp = (0..q).filter(|_| f.contains(&(s.next() & !1))).count() as f64;
    let union = 1.0 - (0..l).map(|i| 1.0 - fpp * tight.powi(i as i32)).product::<f64>();
    let bound = union.min(fpp / (1.0 - tight));
    tr!(c, "items {} fpp {:.4} e {} growth {:.2} tight {:.2} n {}: layers {} measured {:.5} bound {:.5} estimated {:.5}", items, fpp, e, growth, tight, n, l, fp / q as f64, bound, f.estimated_fpp());
    ensure!(fp <= upper(q as f64, bound), "{} layers: measured {:.5} exceeds {:.5}", l, fp / q as f64, bound);
    let est = f.estimated_fpp();
    ensure!(
        fp <= upper(q as f64, est * 1.25 + 1e-4) && fp >= lower(q as f64, est * 0.9),
        "{} layers: estimated_fpp {:.5} but measured {:.5}", l, est, fp / q as f64
    );
    c.label_if(l >= 4, "4+ layers");
    if l >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "random parameters, one growth decision and layer geometry checked per insertion (schedule), up to 80 growths with targets going \
               to zero (many), fractional ratios and large layers (large), compound false positive rate measured (bound); non-trivial: at least one growth (five in many)",
        assumptions: &[
            "the load at which a layer starts overflowing is random; between its lower limit (C08) and full either decision is accepted",
            "cases stop where a layer's fingerprint size is within 1e-9 of a rounding boundary",
        ],
        scenarios: vec![
            Scenario { name: "schedule", cases: 40000, thorough: 20, f: c10_schedule },
            Scenario { name: "large", cases: 800, thorough: 20, f: c10_large },
            Scenario { name: "many", cases: 2000, thorough: 20, f: c10_many },
            Scenario { name: "bound", cases: 1000, thorough: 12, f: c10_bound },
        ],
        known: vec![],
    }
}
