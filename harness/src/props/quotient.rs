//! C11-C13: quotient filters.
use crate::keys::*;
use engine::*;
use probabilistic_collections::quotient::QuotientFilter;
use std::collections::{BTreeSet, HashMap, VecDeque};

type Qf = QuotientFilter<u64, HB>;

fn answers(f: &Qf, keys: &[u64]) -> Vec<bool> {
    keys.iter().map(|k| f.contains(k)).collect()
}

/// Fingerprint classes of the keys, from filters holding one item each.
fn classes(q: u8, r: u8, hb: HB, keys: &[u64]) -> Result<Vec<usize>, String> {
    let n = keys.len();
    let mut m: Vec<Vec<bool>> = Vec::new();
    for k in keys {
        let mut f = Qf::with_hasher(q, r, hb);
        f.insert(k);
        ensure_eq!(f.len(), 1, "len of a filter with one item");
        m.push(answers(&f, keys));
    }
    let mut class = vec![0; n];
    for i in 0..n {
        ensure!(m[i][i], "item {} absent from the filter holding it", keys[i]);
        for j in 0..n {
            ensure_eq!(m[i][j], m[j][i], "matching of {} and {} is not symmetric", keys[i], keys[j]);
            ensure!(!m[i][j] || m[i] == m[j], "matching is not transitive around {} and {}", keys[i], keys[j]);
        }
        class[i] = (0..n).find(|&j| m[i][j]).unwrap();
    }
    Ok(class)
}

/// Hash builder and keys that crowd a few quotients. With `Ident` the hash is the key itself.
fn crowd(c: &mut Case, q: usize, r: usize, n: usize) -> (HB, Vec<u64>) {
    if c.g.chance(1, 3) {
        let hb = any_hb(&mut c.g);
        return (hb, pool(&mut c.g, n));
    }
    // quotient bits above remainder bits, quotients from a short stretch of the ring (wrapping), random high bits
    let start = c.g.below(1 << q);
    let width = c.g.range(1, 1 << q);
    let mut keys = BTreeSet::new();
    let mut tries = 0;
    while keys.len() < n && tries < 4 * n {
        tries += 1;
        let quo = (start + c.g.below(width)) & ((1 << q) - 1);
        let rem = if r >= 3 && c.g.chance(1, 2) { c.g.below(4) } else { c.g.upto((1u64 << r) - 1) };
        let high = if q + r < 64 && c.g.chance(1, 8) { c.g.u64() >> (q + r) << (q + r) } else { 0 };
        keys.insert(high | quo << r | rem);
    }
    (HB::Ident, keys.into_iter().collect())
}

fn c11_history(c: &mut Case) -> R {
    let q = c.g.us(1, 5);
    let r = if c.g.chance(1, 4) { c.g.us(1, 61.min(64 - q)) } else { c.g.us(1, 4) };
    let n = c.g.us(2, (3 << q).min(60));
    let (hb, keys) = crowd(c, q, r, n);
    let n = keys.len();
    tr!(c, "q {} r {} {:?} keys {:?}", q, r, hb, keys);
    label_hb(c, &hb);
    let class = classes(q as u8, r as u8, hb, &keys)?;
    let mut f = Qf::with_hasher(q as u8, r as u8, hb);
    let cap = 1usize << q;
    let mut live: BTreeSet<usize> = BTreeSet::new();
    let (mut removed, mut absent, mut full, mut filling) = (0, 0, false, true);
    while c.g.more(80) {
        if c.g.chance(1, 25) {
            filling = !filling;
        }
        let i = c.g.idx(n);
        match c.g.weighted(&[if filling { 12 } else { 4 }, if filling { 4 } else { 11 }, 1]) {
            0 => {
                if live.len() < cap || live.contains(&class[i]) {
                    f.insert(&keys[i]);
                    live.insert(class[i]);
                    tr!(c, "insert {}", keys[i]);
                }
            }
            1 => {
                f.remove(&keys[i]);
                if live.remove(&class[i]) {
                    removed += 1;
                } else {
                    absent += 1;
                }
                tr!(c, "remove {}", keys[i]);
            }
            _ => match c.g.idx(3) {
                0 => {
                    f.clear();
                    live.clear();
                    tr!(c, "clear");
                }
                1 => f = f.clone(),
                _ => f = bincode::deserialize(&bincode::serialize(&f).unwrap()).unwrap(),
            },
        }
        full |= live.len() == cap;
        ensure_eq!(f.len(), live.len(), "len vs. live fingerprints");
        ensure_eq!(f.is_empty(), live.is_empty(), "is_empty");
        for j in 0..n {
            ensure_eq!(f.contains(&keys[j]), live.contains(&class[j]), "contains({}) with {} live", keys[j], live.len());
        }
    }
    c.label_if(full, "was full");
    c.label_if(removed > 0, "removed present");
    c.label_if(absent > 0, "removed absent");
    c.label_if(class.iter().collect::<BTreeSet<_>>().len() < n, "aliases exist");
    if removed > 0 && n >= 3 {
        c.nontrivial();
    }
    // drain through whatever keys remain
    for i in 0..n {
        f.remove(&keys[i]);
        live.remove(&class[i]);
        ensure_eq!(f.len(), live.len(), "len while draining");
        for j in 0..n {
            ensure_eq!(f.contains(&keys[j]), live.contains(&class[j]), "contains({}) while draining", keys[j]);
        }
    }
    Ok(())
}

fn c11_bulk(c: &mut Case) -> R {
    // larger tables, narrow remainders given by Ident: fingerprint = key modulo 2^(q+r)
    let q = c.g.us(4, 11);
    let r = c.g.us(1, 20);
    let cap = 1usize << q;
    let mut s = Sm::new(c.g.seed());
    let hb = if c.g.chance(1, 2) { HB::Ident } else { good_hb(&mut c.g) };
    let target = (cap as f64 * c.g.unit(0.3, 1.0)) as usize;
    let space = 1u64 << (q + r).min(40);
    let dense = c.g.chance(1, 3);
    let mut f = Qf::with_hasher(q as u8, r as u8, hb);
    let mut live: BTreeSet<u64> = BTreeSet::new();
    tr!(c, "q {} r {} {:?} target {} dense {}", q, r, hb, target, dense);
    let mut draws = 0;
    let mut fill = |f: &mut Qf, live: &mut BTreeSet<u64>, target: usize, s: &mut Sm| -> R {
        while f.len() < target && draws < 20 * cap {
            draws += 1;
            let k = if dense { s.below((2 * cap as u64).min(space)) } else { s.below(space) };
            let had = f.contains(&k);
            let before = f.len();
            f.insert(&k);
            ensure!(f.contains(&k), "{} absent right after its insertion", k);
            ensure_eq!(f.len(), before + !had as usize, "len after inserting {}", k);
            if !had {
                live.insert(k);
            }
        }
        Ok(())
    };
    fill(&mut f, &mut live, target, &mut s)?;
    for round in 0..4 {
        for k in &live {
            ensure!(f.contains(k), "accepted item {} lost in round {} ({} of {} slots)", k, round, live.len(), cap);
        }
        ensure_eq!(f.len(), live.len(), "len in round {}", round);
        if hb == HB::Ident {
            for _ in 0..300 {
                let k = s.below(space);
                ensure_eq!(f.contains(&k), live.contains(&k), "contains({}) in round {}", k, round);
                if !live.contains(&k) {
                    f.remove(&k);
                    ensure_eq!(f.len(), live.len(), "len after removing absent {}", k);
                }
            }
        }
        let mut order: Vec<u64> = live.iter().copied().collect();
        s.shuffle(&mut order);
        let keep = s.below(order.len() as u64 + 1) as usize;
        for k in &order[keep..] {
            f.remove(k);
            live.remove(k);
            ensure!(!f.contains(k), "{} present after its removal", k);
        }
        ensure_eq!(f.len(), live.len(), "len after removals in round {}", round);
        fill(&mut f, &mut live, target, &mut s)?;
    }
    c.label_if(target > cap * 9 / 10, "over 90% full");
    c.nontrivial();
    Ok(())
}

/// Every state reachable by insertions and removals over all fingerprints, every operation from each.
fn c11_bfs<const Q: usize, const ARR: usize>(c: &mut Case) -> R {
    let n = 1u64 << (Q + ARR);
    let keys: Vec<u64> = (0..n).collect();
    // where in the hash the fingerprint sits is found out, not assumed
    let hb = HB::Ident;
    let class = classes(Q as u8, ARR as u8, hb, &keys)?;
    ensure_eq!(class, (0..n as usize).collect::<Vec<_>>(), "2^(q+r) consecutive hash values are not 2^(q+r) fingerprints");
    let cap = 1u32 << Q;
    let mut seen: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut todo: VecDeque<(Qf, u64)> = VecDeque::new();
    let f = Qf::with_hasher(Q as u8, ARR as u8, hb);
    seen.insert(bincode::serialize(&f).unwrap(), 0);
    todo.push_back((f, 0));
    let mut steps = 0u64;
    while let Some((f, set)) = todo.pop_front() {
        for k in 0..n {
            for insert in [true, false] {
                let next = if insert {
                    if set >> k & 1 == 0 && set.count_ones() == cap {
                        continue;
                    }
                    set | 1 << k
                } else {
                    set & !(1 << k)
                };
                let mut g = f.clone();
                let done = panics(|| {
                    if insert {
                        g.insert(&k)
                    } else {
                        g.remove(&k)
                    }
                });
                steps += 1;
                let what = if insert { "inserting" } else { "removing" };
                ensure!(done.is_ok(), "{} fingerprint {} with live set {:b} panics: {:?}", what, k, set, done.err());
                ensure_eq!(g.len(), next.count_ones() as usize, "len after {} fingerprint {} with live set {:b}", what, k, set);
                for x in 0..n {
                    ensure_eq!(
                        g.contains(&x), next >> x & 1 == 1,
                        "contains(fingerprint {}) after {} fingerprint {} with live set {:b}", x, what, k, set
                    );
                }
                let key = bincode::serialize(&g).unwrap();
                if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(key) {
                    e.insert(next);
                    todo.push_back((g, next));
                }
                ensure!(seen.len() < 3_000_000, "state space larger than expected");
            }
        }
    }
    tr!(c, "q {} r {}: {} reachable states, {} operations", Q, ARR, seen.len(), steps);
    c.nontrivial();
    Ok(())
}

/// Exactly q + r bits of the hash decide membership; `Ident` makes the hash the key.
fn told_apart(f: &Qf, x: u64) -> u64 {
    (0..64).filter(|b| !f.contains(&(x ^ 1 << b))).fold(0, |m, b| m | 1 << b)
}

fn c11_width(c: &mut Case) -> R {
    let q = c.g.us(1, 21);
    let r = c.g.us(1, 61.min(64 - q));
    let mut f = Qf::with_hasher(q as u8, r as u8, HB::Ident);
    ensure_eq!(f.capacity(), 1usize << q, "capacity");
    let first = c.g.u64();
    f.insert(&first);
    let mask = told_apart(&f, first);
    tr!(c, "q {} r {}: hash bits told apart {:016x}", q, r, mask);
    ensure_eq!(mask.count_ones() as usize, q + r, "hash bits that tell items apart ({:016x}) for q {} r {}", mask, q, r);
    let mut live: BTreeSet<u64> = BTreeSet::new();
    live.insert(first & mask);
    let mut s = Sm::new(c.g.seed());
    for i in 0..c.g.us(1, 60) {
        if live.len() + 1 >= 1 << q {
            break;
        }
        // fresh, or a single bit away from the one before
        let x = match i % 3 {
            0 => s.next(),
            _ => first ^ 1 << s.below(64),
        };
        if i % 5 == 4 {
            f.remove(&x);
            live.remove(&(x & mask));
        } else {
            f.insert(&x);
            live.insert(x & mask);
        }
        ensure_eq!(f.len(), live.len(), "len");
        let y = x ^ 1 << s.below(64);
        ensure_eq!(f.contains(&y), live.contains(&(y & mask)), "contains({:016x})", y);
        ensure_eq!(f.contains(&x), live.contains(&(x & mask)), "contains({:016x})", x);
    }
    c.label_if(q > 16, "more than 2^16 slots");
    c.label_if(r > 32, "remainders over 32 bits");
    c.nontrivial();
    Ok(())
}

/// Clusters and runs of thousands of slots, in tables of up to 2^18 slots, against a set of masked hashes.
fn c11_giant(c: &mut Case) -> R {
    let q = c.g.us(12, 18);
    let r = c.g.us(1, 40.min(61));
    let cap = 1u64 << q;
    let mut f = Qf::with_hasher(q as u8, r as u8, HB::Ident);
    let first = c.g.u64();
    f.insert(&first);
    let mask = told_apart(&f, first);
    ensure_eq!(mask.count_ones() as usize, q + r, "hash bits that tell items apart");
    let mut live: BTreeSet<u64> = BTreeSet::new();
    live.insert(first & mask);
    let mut s = Sm::new(c.g.seed());
    // keys next to each other share quotients and fill one cluster; spread ones make many clusters
    let shape = c.g.idx(3);
    let n = if shape == 2 { (cap as f64 * c.g.unit(0.3, 0.85)) as u64 } else { c.g.range(3000, 7000).min(cap - 50) };
    let base = if c.g.chance(1, 2) { (cap << r).wrapping_sub(n / 2) } else { s.next() };
    let stride = if shape == 1 { 1u64 << c.g.below(r as u64 + 1) } else { 1 };
    tr!(c, "q {} r {} shape {} n {} base {:x} stride {}", q, r, shape, n, base, stride);
    let key = |i: u64, s: &mut Sm| if shape == 2 { s.next() } else { base.wrapping_add(i.wrapping_mul(stride)) };
    let mut order: Vec<u64> = (0..n).collect();
    if c.g.chance(1, 2) {
        s.shuffle(&mut order);
    }
    let mut keys = vec![first];
    let check = |f: &Qf, live: &BTreeSet<u64>, keys: &[u64], s: &mut Sm, m: usize, when: &str| -> R {
        for _ in 0..m {
            let k = keys[s.below(keys.len() as u64) as usize] ^ if s.below(3) == 0 { 1 << s.below(64) } else { 0 };
            ensure_eq!(f.contains(&k), live.contains(&(k & mask)), "contains({:x}) {} with {} live", k, when, live.len());
        }
        Ok(())
    };
    for i in order {
        let k = key(i, &mut s);
        f.insert(&k);
        live.insert(k & mask);
        keys.push(k);
        ensure_eq!(f.len(), live.len(), "len after inserting {:x}", k);
        if i % 256 == 0 {
            check(&f, &live, &keys, &mut s, 6, "while filling")?;
        }
    }
    check(&f, &live, &keys, &mut s, 1500, "after filling")?;
    let out = c.g.range(100, 2000);
    for i in 0..out {
        let k = keys[s.below(keys.len() as u64) as usize];
        f.remove(&k);
        live.remove(&(k & mask));
        ensure_eq!(f.len(), live.len(), "len after removing {:x}", k);
        if i % 64 == 0 {
            check(&f, &live, &keys, &mut s, 6, "while removing")?;
        }
    }
    check(&f, &live, &keys, &mut s, 1500, "after removals")?;
    c.label(["one cluster", "strided", "spread"][shape]);
    c.nontrivial();
    Ok(())
}

/// One cluster that takes up a large ring: an item in every canonical slot, then a few more that shift all of them.
fn c11_ring(c: &mut Case) -> R {
    let q = c.g.us(8, 18);
    let r = c.g.us(2, 40);
    let cap = 1u64 << q;
    let mut f = Qf::with_hasher(q as u8, r as u8, HB::Ident);
    let mut s = Sm::new(c.g.seed());
    let first = (s.next() & (cap - 1)) << r | 1;
    f.insert(&first);
    let mask = told_apart(&f, first);
    ensure_eq!(mask.count_ones() as usize, q + r, "hash bits that tell items apart");
    // holes stop the shifting; without any, all but the last slots are one cluster
    let holes: BTreeSet<u64> = (0..1 + if c.g.chance(1, 3) { c.g.below(5) } else { 0 }).map(|_| s.below(cap)).collect();
    let mut live: BTreeSet<u64> = BTreeSet::new();
    live.insert(first & mask);
    for i in 0..cap {
        if !holes.contains(&i) && i != first >> r {
            let k = i << r | s.below(1 << r.min(3));
            f.insert(&k);
            live.insert(k & mask);
        }
    }
    tr!(c, "q {} r {} first {:x} holes {:?}", q, r, first, holes);
    let all: Vec<u64> = live.iter().copied().collect();
    let check = |f: &Qf, live: &BTreeSet<u64>, s: &mut Sm, m: usize, when: &str| -> R {
        ensure_eq!(f.len(), live.len(), "len {}", when);
        for _ in 0..m {
            let k = all[s.below(all.len() as u64) as usize] ^ if s.below(2) == 0 { 1 << s.below((r as u64).min(4)) } else { 0 };
            ensure_eq!(f.contains(&k), live.contains(&(k & mask)), "contains({:x}) {} with {} live", k, when, live.len());
        }
        Ok(())
    };
    check(&f, &live, &mut s, 200, "after filling")?;
    let m = (4_000_000 >> q).min(60) as usize;
    for i in 0..m {
        let rem = s.below(1 << r.min(4));
        let k = match s.below(3) {
            // close behind a hole: the whole ring up to the next one moves
            0 => ((*holes.iter().nth(s.below(holes.len() as u64) as usize).unwrap() + 1 + s.below(3)) & (cap - 1)) << r | rem,
            1 => all[s.below(all.len() as u64) as usize],
            _ => s.below(cap) << r | rem,
        };
        let had = live.contains(&(k & mask));
        if had && s.below(2) == 0 {
            f.remove(&k);
            live.remove(&(k & mask));
            ensure!(!f.contains(&k), "{:x} present after its removal", k);
        } else if had || live.len() < cap as usize {
            f.insert(&k);
            live.insert(k & mask);
            ensure!(f.contains(&k), "{:x} absent after its insertion", k);
        } else {
            f.remove(&k);
            ensure_eq!(f.contains(&k), false, "an item that was not in");
        }
        check(&f, &live, &mut s, 6, &format!("after step {}", i))?;
    }
    check(&f, &live, &mut s, 4 * m, "at the end")?;
    c.label_if(q >= 16, "2^16 slots or more");
    c.nontrivial();
    Ok(())
}

fn c11_wide_slots() -> R {
    for (q, r) in [(1u8, 63u8), (1, 62), (2, 62)] {
        let x = panics(|| {
            let mut f = QuotientFilter::<u64, HB>::with_hasher(q, r, HB::Mix(1));
            f.insert(&1);
            f.insert(&2);
            (f.contains(&1), f.contains(&2), f.contains(&3), f.len())
        });
        ensure!(x == Ok((true, true, false, 2)), "{} + {} bits: {:?}", q, r, x);
    }
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "histories over crowded quotients (small tables, wrap-around clusters, full tables) compared after every step with a set of \
               fingerprint classes found from one-item filters; bulk runs up to 2048 slots; clusters of thousands of slots in tables of up to \
               2^18 and hash bits told apart in tables of up to 2^21 slots, against sets of masked hashes; and breadth-first enumeration of every state and \
               operation for small (q,r); non-trivial: at least one removal of a present item and 3 keys (history), every bulk, width, giant and bfs case",
        assumptions: &[
            "remainder_bits <= 61: wider slots do not fit a word (a known finding)",
            "states with equal serialized bytes behave equally (bfs)",
        ],
        scenarios: vec![
            Scenario { name: "bfs-1-1", cases: 1, thorough: 1, f: c11_bfs::<1, 1> },
            Scenario { name: "bfs-1-2", cases: 1, thorough: 1, f: c11_bfs::<1, 2> },
            Scenario { name: "bfs-1-4", cases: 1, thorough: 1, f: c11_bfs::<1, 4> },
            Scenario { name: "bfs-2-1", cases: 1, thorough: 1, f: c11_bfs::<2, 1> },
            Scenario { name: "bfs-2-2", cases: 1, thorough: 1, f: c11_bfs::<2, 2> },
            Scenario { name: "bfs-2-3", cases: 1, thorough: 1, f: c11_bfs::<2, 3> },
            Scenario { name: "bfs-3-1", cases: 1, thorough: 1, f: c11_bfs::<3, 1> },
            Scenario { name: "history", cases: 71000, thorough: 20, f: c11_history },
            Scenario { name: "bulk", cases: 1000, thorough: 20, f: c11_bulk },
            Scenario { name: "width", cases: 13000, thorough: 20, f: c11_width },
            Scenario { name: "giant", cases: 180, thorough: 20, f: c11_giant },
            Scenario { name: "ring", cases: 400, thorough: 20, f: c11_ring },
        ],
        known: vec![KnownProbe {
            sig: "wide-slots",
            what: "QuotientFilter::new(1, 63) and two neighbours: with 62 or 63 remainder bits a slot has more than 64 bits and operations panic or lose items",
            f: c11_wide_slots,
        }],
    }
}

// ---------------------------------------------------------------- C12

fn c12_full(c: &mut Case) -> R {
    let qmax = if c.g.chance(1, 5) { 9 } else { 4 };
    let q = c.g.us(1, qmax);
    let r = if c.g.chance(1, 4) { c.g.us(2, 61.min(64 - q)) } else { c.g.us(1, 6) };
    let cap = 1usize << q;
    let ident = c.g.chance(2, 3);
    let hb = if ident { HB::Ident } else { good_hb(&mut c.g) };
    let mut s = Sm::new(c.g.seed());
    // with Ident one stretch of quotients can take everything
    let width = if ident { c.g.range(1, cap as u64) } else { cap as u64 };
    let start = c.g.below(cap as u64);
    let rmask = (1u64 << r.min(63)) - 1;
    let draw = |s: &mut Sm| -> u64 {
        if ident {
            ((start + s.below(width)) % cap as u64) << r | (s.next() & rmask)
        } else {
            s.next()
        }
    };
    let mut f = Qf::with_hasher(q as u8, r as u8, hb);
    let mut live: Vec<u64> = Vec::new();
    let mut tries = 0;
    tr!(c, "q {} r {} {:?} quotients {}+{}", q, r, hb, start, width);
    let rounds = c.g.us(1, 4);
    let mut pan = 0;
    for _ in 0..rounds {
        while live.len() < cap && tries < 60 * cap + 200 {
            tries += 1;
            let k = draw(&mut s);
            let had = f.contains(&k);
            if let Err(m) = panics(|| f.insert(&k)) {
                fail!("inserting {} with {} of {} slots used panics: {}", k, live.len(), cap, m);
            }
            if !had {
                live.push(k);
            }
            ensure_eq!(f.len(), live.len(), "len");
        }
        if live.len() < cap {
            // too few fingerprints in the stretch; complete from the whole ring
            let mut k = 0;
            while live.len() < cap && k < 1 << (q + r).min(20) {
                let key = if ident { k } else { s.next() };
                k += 1;
                if !f.contains(&key) {
                    f.insert(&key);
                    live.push(key);
                }
            }
        }
        if live.len() < cap {
            return Ok(());
        }
        c.label("filled completely");
        let before = bincode::serialize(&f).unwrap();
        let attempts = c.g.us(1, 6);
        for _ in 0..attempts {
            let k = if c.g.chance(1, 2) { draw(&mut s) } else { s.next() };
            let had = f.contains(&k);
            let res = panics(|| f.insert(&k));
            tr!(c, "full: insert {} (present {}) -> {}", k, had, if res.is_ok() { "returns" } else { "panics" });
            if had {
                ensure!(res.is_ok(), "inserting present item {} into a full filter panics", k);
            } else {
                pan += 1;
                ensure!(res.is_err(), "inserting new item {} into a full filter returns, len {}", k, f.len());
            }
            ensure_eq!(f.len(), cap, "len of the full filter after inserting {}", k);
            ensure!(bincode::serialize(&f).unwrap() == before, "insertion of {} changed the full filter", k);
            ensure_eq!(f.contains(&k), had, "contains({}) after the attempt", k);
        }
        for k in &live {
            ensure!(f.contains(k), "{} lost from the full filter", k);
            ensure!(panics(|| f.insert(k)).is_ok(), "re-inserting {} into a full filter panics", k);
        }
        ensure!(bincode::serialize(&f).unwrap() == before, "re-insertion of present items changed the full filter");
        // absent items cannot be removed
        for _ in 0..3 {
            let k = draw(&mut s);
            if !f.contains(&k) {
                f.remove(&k);
                ensure!(bincode::serialize(&f).unwrap() == before, "removing absent {} changed the full filter", k);
            }
        }
        let drop = c.g.us(1, cap);
        for _ in 0..drop {
            let i = s.below(live.len() as u64) as usize;
            let k = live.swap_remove(i);
            f.remove(&k);
            ensure!(!f.contains(&k), "{} present after its removal", k);
            ensure_eq!(f.len(), live.len(), "len after removing {}", k);
        }
        for k in &live {
            ensure!(f.contains(k), "{} lost after removals from the full filter", k);
        }
        tries = 0;
    }
    if pan > 0 {
        c.nontrivial();
    }
    c.label_if(pan > 0, "new item rejected");
    Ok(())
}

/// Thousands of slots, the last ones filled into one ring-wide cluster.
fn c12_large(c: &mut Case) -> R {
    let q = c.g.us(10, 13);
    let r = c.g.us(2, 20);
    let cap = 1usize << q;
    let mut f = Qf::with_hasher(q as u8, r as u8, HB::Ident);
    let mut s = Sm::new(c.g.seed());
    // consecutive hash values, or a full ring with a few crowded places
    let dense = c.g.chance(1, 2);
    let base = s.next();
    let mut live: Vec<u64> = Vec::new();
    let mut i = 0u64;
    tr!(c, "q {} r {} dense {} base {:x}", q, r, dense, base);
    while live.len() < cap && i < 40 * cap as u64 {
        let k = if dense { base.wrapping_add(i) } else { s.next() };
        i += 1;
        let had = f.contains(&k);
        if let Err(m) = panics(|| f.insert(&k)) {
            fail!("inserting {} with {} of {} slots used panics: {}", k, live.len(), cap, m);
        }
        if !had {
            live.push(k);
        }
        ensure_eq!(f.len(), live.len(), "len");
    }
    if live.len() < cap {
        return Ok(());
    }
    let before = bincode::serialize(&f).unwrap();
    let sample = |f: &Qf, live: &[u64], s: &mut Sm, when: &str| -> R {
        for _ in 0..400 {
            let k = live[s.below(live.len() as u64) as usize];
            ensure!(f.contains(&k), "{} lost {}", k, when);
        }
        Ok(())
    };
    sample(&f, &live, &mut s, "in the full filter")?;
    let mut rejected = 0;
    for j in 0..40 {
        let k = if j % 4 == 0 { live[s.below(cap as u64) as usize] } else { s.next() };
        let had = f.contains(&k);
        let res = panics(|| f.insert(&k));
        ensure_eq!(res.is_ok(), had, "inserting an item into the full filter that is present ({})", had);
        rejected += !had as u32;
        ensure!(bincode::serialize(&f).unwrap() == before, "insertion of {} changed the full filter", k);
    }
    let drop = c.g.us(1, 300);
    for _ in 0..drop {
        let k = live.swap_remove(s.below(live.len() as u64) as usize);
        f.remove(&k);
        ensure!(!f.contains(&k), "{} present after its removal", k);
        ensure_eq!(f.len(), live.len(), "len after removing {}", k);
    }
    sample(&f, &live, &mut s, "after removals from the full filter")?;
    while live.len() < cap {
        let k = s.next();
        if !f.contains(&k) {
            f.insert(&k);
            live.push(k);
        }
        ensure_eq!(f.len(), live.len(), "len while refilling");
    }
    sample(&f, &live, &mut s, "after refilling")?;
    if rejected > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Up to 2^18 slots, nearly each taken by an item of its own; a few removals and insertions shift long stretches.
fn c12_ring(c: &mut Case) -> R {
    let q = c.g.us(12, 18);
    let r = c.g.us(2, 30);
    let cap = 1u64 << q;
    let mut f = Qf::with_hasher(q as u8, r as u8, HB::Ident);
    let mut s = Sm::new(c.g.seed());
    let key = |i: u64, s: &mut Sm| (i & (cap - 1)) << r | s.below(1 << r.min(2));
    let mut live: Vec<u64> = Vec::new();
    // some slots are left to a second or third item of another quotient
    let gaps: BTreeSet<u64> = (0..c.g.below(6)).map(|_| s.below(cap)).collect();
    for i in 0..cap {
        if !gaps.contains(&i) {
            let k = key(i, &mut s);
            f.insert(&k);
            live.push(k);
        }
    }
    let rounds = (3_000_000u64 >> q).min(8);
    tr!(c, "q {} r {} gaps {:?} {} rounds", q, r, gaps, rounds);
    let mut rejected = 0;
    for round in 0..rounds {
        while live.len() < cap as usize {
            let k = key(s.next(), &mut s);
            let had = f.contains(&k);
            if let Err(m) = panics(|| f.insert(&k)) {
                fail!("inserting {:x} with {} of {} slots used panics: {}", k, live.len(), cap, m);
            }
            if !had {
                live.push(k);
            }
            ensure!(f.contains(&k), "{:x} absent after its insertion", k);
            ensure_eq!(f.len(), live.len(), "len");
        }
        let before = bincode::serialize(&f).unwrap();
        for j in 0..6 {
            let k = if j % 3 == 0 { live[s.below(cap) as usize] } else { key(s.next(), &mut s) };
            let had = f.contains(&k);
            ensure!(had || j % 3 != 0, "{:x} lost from the full filter", k);
            ensure_eq!(panics(|| f.insert(&k)).is_ok(), had, "inserting an item into the full filter that is present ({})", had);
            rejected += !had as u32;
            ensure_eq!(f.len(), cap as usize, "len of the full filter");
            ensure!(bincode::serialize(&f).unwrap() == before, "insertion of {:x} changed the full filter", k);
        }
        for _ in 0..1 + s.below(4) {
            let i = s.below(live.len() as u64) as usize;
            let k = live.swap_remove(i);
            f.remove(&k);
            ensure!(!f.contains(&k), "{:x} present after its removal", k);
            ensure_eq!(f.len(), live.len(), "len after a removal");
        }
        for _ in 0..8 {
            let k = live[s.below(live.len() as u64) as usize];
            ensure!(f.contains(&k), "{:x} lost after removals in round {}", k, round);
        }
    }
    c.label_if(q >= 16, "2^16 slots or more");
    if rejected > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "filters of 2-512 slots, and some of 1024-262144, filled completely (crowded or spread quotients), new and present items inserted, then removals and \
               refills; state compared through answers, len and serialized bytes; non-trivial: at least one new item was offered to a full filter",
        assumptions: &["remainder_bits <= 61 (a known finding)"],
        scenarios: vec![
            Scenario { name: "full", cases: 30000, thorough: 20, f: c12_full },
            Scenario { name: "large", cases: 140, thorough: 20, f: c12_large },
            Scenario { name: "ring", cases: 200, thorough: 20, f: c12_ring },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------- C13

fn fpp_at(load: f64, r: u8) -> f64 {
    -(-load / 2f64.powi(r as i32)).exp_m1()
}

fn c13_sizing(c: &mut Case) -> R {
    let cap = c.g.logu(1, 100_000);
    let p = match c.g.weighted(&[6, 1, 1]) {
        0 => c.g.flog(1e-12, 0.999),
        1 => c.g.flog(1e-300, 1e-12),
        _ => 1.0 - c.g.flog(1e-16, 0.1),
    };
    if p >= 1.0 {
        return Ok(());
    }
    let hb = good_hb(&mut c.g);
    let mut f = match panics(|| Qf::from_fpp_with_hasher(cap, p, hb)) {
        Ok(f) => f,
        Err(m) => fail!("from_fpp({}, {:e}) panics: {}", cap, p, m),
    };
    let (q, r) = (f.quotient_bits(), f.remainder_bits());
    tr!(c, "capacity {} fpp {:e} -> q {} r {}", cap, p, q, r);
    ensure_eq!(f.capacity(), 1usize << q, "capacity vs. quotient bits");
    let load = cap as f64 / f.capacity() as f64;
    ensure!(load <= 0.7525, "capacity {} in {} slots: {:.3} full", cap, f.capacity(), load);
    ensure!(load > 0.375 || q == 1, "capacity {} in {} slots: twice too large", cap, f.capacity());
    ensure!(q as u32 + r as u32 <= 64 && r >= 1, "q {} r {}", q, r);
    let widest = (q as u32 + r as u32 == 64) || r == 61;
    ensure!(
        fpp_at(load, r) <= p * (1.0 + 1e-9) || widest,
        "from_fpp({}, {:e}) has {} remainder bits: estimated fpp {:e} at that many items", cap, p, r, fpp_at(load, r)
    );
    ensure!(
        r == 1 || fpp_at(0.7525, r - 2) > p * (1.0 - 1e-9),
        "from_fpp({}, {:e}) has {} remainder bits where {} suffice", cap, p, r, r - 2
    );
    // estimated_fpp at a partial load
    let n = c.g.us(0, cap.min(40));
    let mut s = Sm::new(c.g.seed());
    for _ in 0..n {
        f.insert(&s.next());
    }
    let want = fpp_at(f.len() as f64 / f.capacity() as f64, r);
    ensure!(
        (f.estimated_fpp() - want).abs() <= 1e-9 * want + 1e-15,
        "estimated_fpp {:e} with {} of {} slots and {} remainder bits instead of {:e}", f.estimated_fpp(), f.len(), f.capacity(), r, want
    );
    c.label_if(p > 0.5, "p above 0.5");
    c.label_if(p < 1e-12, "p below 1e-12");
    c.nontrivial();
    Ok(())
}

fn c13_measured(c: &mut Case) -> R {
    let cap = c.g.logu(50, 8000);
    let p = c.g.flog(0.0008, 0.6);
    let at_design = c.g.chance(1, 2);
    let mut s = Sm::new(c.g.seed());
    let sipk = c.g.chance(1, 2);
    let mk = |s: &mut Sm| {
        let hb = if sipk { HB::Sip(sip(s.next(), s.next())) } else { HB::Mix(s.next()) };
        Qf::from_fpp_with_hasher(cap, p, hb)
    };
    let slots = mk(&mut s).capacity();
    let n = if at_design { cap } else { (slots as f64 * c.g.unit(0.1, 0.97)) as usize };
    // at few remainder bits not all fingerprints fit
    let reps = (60_000 / n.max(1)).clamp(1, 40);
    let per = 40_000usize;
    let (mut fp, mut q, mut est, mut lens) = (0.0, 0.0, 0.0, 0.0);
    let mut r = 0;
    for _ in 0..reps {
        let mut f = mk(&mut s);
        r = f.remainder_bits();
        for _ in 0..n {
            f.insert(&(s.next() | 1));
        }
        lens += f.len() as f64;
        est += f.estimated_fpp() / reps as f64;
        // a full filter makes negative queries slow; spread them
        for _ in 0..per / reps + 1 {
            fp += f.contains(&(s.next() & !1)) as u8 as f64;
            q += 1.0;
        }
    }
    // exact expectation: the live fingerprints out of 2^(q+r)
    let exact = lens / reps as f64 / slots as f64 / 2f64.powi(r as i32);
    tr!(c, "capacity {} p {:.4} n {} slots {} r {}: measured {:.5} estimated {:.5} exact {:.5}", cap, p, n, slots, r, fp / q, est, exact);
    ensure!(fp <= upper(q, exact * 1.02) && fp >= lower(q, exact * 0.98), "measured {:.5}, live fingerprints predict {:.5}", fp / q, exact);
    if at_design {
        ensure!(
            fp <= upper(q, p),
            "from_fpp({}, {:.4}) filled with {} items: measured {:.5}", cap, p, cap, fp / q
        );
        ensure!(est <= p, "from_fpp({}, {:.4}) filled with {} items: estimated_fpp {:.5}", cap, p, cap, est);
        c.label("at design load");
    }
    // the estimate is exact up to the second order in load / 2^r
    let second = exact * exact;
    ensure!(
        (est - exact).abs() <= second * 0.75 + 1e-9,
        "estimated_fpp {:.5} where the live fingerprints give {:.5}", est, exact
    );
    c.nontrivial();
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "random capacities and probabilities across (0,1) against the closed form (sizing) and measured false positive rates at the design \
               load and at other loads (measured, 6 sigma); every case is non-trivial",
        assumptions: &["below about 2^-60 the 64-bit hash bounds the probability that can be reached"],
        scenarios: vec![
            Scenario { name: "sizing", cases: 36000, thorough: 20, f: c13_sizing },
            Scenario { name: "measured", cases: 1000, thorough: 12, f: c13_measured },
        ],
        known: vec![],
    }
}
