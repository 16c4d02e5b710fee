//! C21-C24: shingles, Jaccard similarity, MinHash and SimHash.
use crate::keys::*;
use engine::*;
use probabilistic_collections::similarity::*;
use std::collections::{BTreeMap, BTreeSet};
use std::vec::IntoIter;

const WORDS: [&str; 12] = ["a", "b", "the", "", "cat", "Cat", "on", "mat", "\u{e9}t\u{e9}", " ", "sat", "zz"];

fn c21_shingles(c: &mut Case) -> R {
    let n = if c.g.chance(1, 6) { c.g.us(0, 3) } else { c.g.us(0, 40) };
    let tokens: Vec<&str> = (0..n).map(|_| WORDS[c.g.idx(WORDS.len())]).collect();
    let w = match c.g.weighted(&[6, 2, 1]) {
        0 => c.g.us(1, 6),
        1 => (n + c.g.us(0, 4)).saturating_sub(2).max(1),
        _ => *c.g.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 32, 1000]),
    };
    tr!(c, "width {} tokens {:?}", w, tokens);
    let want: Vec<Vec<&str>> = if w <= n { tokens.windows(w).map(|x| x.to_vec()).collect() } else { vec![] };
    let mut it = ShingleIterator::new(w, tokens.clone());
    for (i, x) in want.iter().enumerate() {
        let got = it.next();
        ensure_eq!(got.as_ref(), Some(x), "shingle {} of width {} of {:?}", i, w, tokens);
    }
    for _ in 0..4 {
        ensure_eq!(it.next(), None, "after the last shingle of width {} of {:?}", w, tokens);
    }
    let all: Vec<_> = ShingleIterator::new(w, tokens.clone()).collect();
    ensure_eq!(all, want, "collected shingles of width {}", w);
    // other token types, the tokens themselves and not copies
    let nums: Vec<u64> = (0..n as u64).collect();
    let refs: Vec<&u64> = nums.iter().collect();
    let mut count = 0usize;
    for (i, s) in ShingleIterator::new(w, refs).enumerate() {
        count += 1;
        ensure!(s.len() == w && s.iter().enumerate().all(|(j, x)| std::ptr::eq(*x, &nums[i + j])), "shingle {} of width {} of 0..{}", i, w, n);
    }
    ensure_eq!(count, (n + 1).saturating_sub(w), "number of shingles of width {} of {} tokens", w, n);
    c.label_if(w > n, "fewer tokens than the width");
    c.label_if(w == n, "as many tokens as the width");
    c.label_if(w == 1, "width one");
    if n > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn multiset(c: &mut Case, uni: u64, n: usize) -> Vec<u64> {
    (0..n).map(|_| c.g.below(uni)).collect()
}

fn c21_jaccard(c: &mut Case) -> R {
    let uni = c.g.range(1, 40);
    let (na, nb) = (c.g.us(0, 30), c.g.us(0, 30));
    let mut a = multiset(c, uni, na);
    let mut b = multiset(c, uni, nb);
    match c.g.weighted(&[5, 1, 1, 1]) {
        0 => {}
        1 => b.iter_mut().for_each(|x| *x += 1000),
        2 => {
            b = a.clone();
            b.reverse();
            b.extend(a.clone());
        }
        _ => a.truncate(0),
    }
    if a.is_empty() && b.is_empty() {
        b.push(3);
    }
    tr!(c, "A {:?} B {:?}", a, b);
    let (sa, sb): (BTreeSet<u64>, BTreeSet<u64>) = (a.iter().copied().collect(), b.iter().copied().collect());
    let inter = sa.intersection(&sb).count();
    let want = inter as f64 / sa.union(&sb).count() as f64;
    let j = get_jaccard_similarity(a.clone().into_iter(), b.clone().into_iter());
    ensure!((j - want).abs() <= 1e-12, "similarity of {:?} and {:?} is {}, not {}", a, b, j, want);
    ensure!((0.0..=1.0).contains(&j), "similarity {}", j);
    ensure_eq!(j == 1.0, sa == sb, "similarity one of {:?} and {:?}", a, b);
    ensure_eq!(j == 0.0, inter == 0, "similarity zero of {:?} and {:?}", a, b);
    let k = get_jaccard_similarity(b.clone().into_iter(), a.clone().into_iter());
    ensure!(j == k, "similarity is not symmetric: {} and {}", j, k);
    // order and repetition
    let mut a2: Vec<u64> = a.iter().rev().chain(a.iter()).copied().collect();
    Sm::new(c.g.seed()).shuffle(&mut a2);
    let l = get_jaccard_similarity(a2.iter().copied(), sb.iter().copied().collect::<Vec<_>>().into_iter().chain(std::iter::empty()).collect::<Vec<_>>().iter().copied());
    ensure!(j == l, "similarity depends on order or repetition: {} and {}", j, l);
    // items of another type
    let s = |v: &[u64]| v.iter().map(|x| format!("item {}", x)).collect::<Vec<_>>();
    let m = get_jaccard_similarity(s(&a).into_iter(), s(&b).into_iter());
    ensure!(j == m, "similarity of strings {} and of numbers {}", m, j);
    // shingles end to end
    let w = c.g.us(1, 3);
    let ta: Vec<&str> = a.iter().map(|x| WORDS[(*x % 3) as usize]).collect();
    let tb: Vec<&str> = b.iter().map(|x| WORDS[(*x % 3) as usize]).collect();
    let sh = |t: &Vec<&'static str>| t.windows(w).map(|x| x.to_vec()).collect::<BTreeSet<_>>();
    let (x, y) = (sh(&ta), sh(&tb));
    if !x.is_empty() || !y.is_empty() {
        let want = x.intersection(&y).count() as f64 / x.union(&y).count() as f64;
        let got = get_jaccard_similarity(ShingleIterator::new(w, ta.clone()), ShingleIterator::new(w, tb.clone()));
        ensure!((got - want).abs() <= 1e-12, "shingle similarity of {:?} and {:?} is {}, not {}", ta, tb, got, want);
    }
    c.label_if(sa == sb, "equal sets");
    c.label_if(inter == 0, "disjoint sets");
    c.label_if(a.len() > sa.len(), "repetitions");
    if inter > 0 && sa != sb {
        c.nontrivial();
    }
    Ok(())
}

/// Inputs far beyond the usual sizes.
fn c21_large(c: &mut Case) -> R {
    let mut rng = Sm::new(c.g.seed());
    if c.g.chance(1, 2) {
        let n = c.g.logu(40, 200_000);
        let w = c.g.logu(1, (4_000_000 / n).min(n + 2));
        let words: Vec<String> = (0..c.g.us(1, 50)).map(|i| format!("w{}", i)).collect();
        let tokens: Vec<&str> = (0..n).map(|_| words[rng.below(words.len() as u64) as usize].as_str()).collect();
        tr!(c, "{} tokens, width {}", n, w);
        let mut it = ShingleIterator::new(w, tokens.clone());
        for (i, x) in tokens.windows(w).enumerate() {
            match it.next() {
                Some(s) => ensure!(s.len() == w && s.iter().zip(x).all(|(a, b)| std::ptr::eq(*a, *b)), "shingle {} of width {} of {} tokens", i, w, n),
                None => fail!("shingles of width {} of {} tokens end after {}", w, n, i),
            }
        }
        for _ in 0..3 {
            ensure!(it.next().is_none(), "more shingles of width {} than {} tokens have", w, n);
        }
        c.label("shingles");
        c.label_if(n > 65_536, "more than 65536");
    } else {
        // A = [0, a), B = [a - both, a - both + b), spread out and repeated
        let huge = c.g.chance(1, 6);
        let (a, b) = if huge { (c.g.range(70_000, 300_000), c.g.range(70_000, 300_000)) } else { (c.g.logr(1, 150_000), c.g.logr(1, 150_000)) };
        let both = if huge { a.min(b) - c.g.logr(1, 60_000) } else { c.g.upto(a.min(b)) };
        let mul = c.g.u64() | 1;
        let rep = c.g.range(1, 3);
        let mut list = |from: u64, n: u64| -> Vec<u64> {
            let mut v: Vec<u64> = (0..rep).flat_map(|_| (from..from + n).map(|x| x.wrapping_mul(mul))).collect();
            if n % 2 == 0 {
                rng.shuffle(&mut v);
            }
            v
        };
        let (x, y) = (list(0, a), list(a - both, b));
        let want = both as f64 / (a + b - both) as f64;
        let j = get_jaccard_similarity(x.iter(), y.iter());
        tr!(c, "{} and {} items, {} shared, each {} times: {}", a, b, both, rep, j);
        ensure!((j - want).abs() <= 1e-12, "similarity of {} and {} items with {} shared is {}, not {}", a, b, both, j, want);
        ensure!(j == get_jaccard_similarity(y.iter(), x.iter()), "similarity is not symmetric");
        ensure_eq!((j == 1.0, j == 0.0), (a == b && both == a, both == 0), "similarity one or zero");
        c.label("jaccard");
        c.label_if(both > 65_536, "more than 65536 shared");
        c.label_if(x.len().max(y.len()) > 65_536, "more than 65536");
    }
    c.nontrivial();
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "shingles: at least one token; jaccard: sets that overlap and differ; large: all",
        assumptions: &["two empty inputs have no defined similarity"],
        scenarios: vec![
            Scenario { name: "shingles", cases: 111000, thorough: 40, f: c21_shingles },
            Scenario { name: "jaccard", cases: 107000, thorough: 40, f: c21_jaccard },
            Scenario { name: "large", cases: 1000, thorough: 20, f: c21_large },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C22

type Mh = MinHash<IntoIter<u64>, u64, HB>;

fn c22_algebra(c: &mut Case) -> R {
    let k = if c.g.chance(1, 8) { c.g.us(64, 300) } else { c.g.us(1, 40) };
    let hb = any_pair(&mut c.g);
    label_hb(c, &hb[0]);
    let mh = Mh::with_hashers(k, hb);
    let np = c.g.us(1, 30);
    let keys = pool(&mut c.g, np);
    let draw = |c: &mut Case| -> Vec<u64> {
        let n = c.g.us(1, 25);
        (0..n).map(|_| *c.g.pick(&keys)).collect()
    };
    let (a, b) = (draw(c), draw(c));
    tr!(c, "{} hash functions {:?}: A {:?} B {:?}", k, hb, a, b);
    let sig = |v: &[u64]| mh.get_min_hashes(v.to_vec().into_iter());
    let (sa, sb) = (sig(&a), sig(&b));
    ensure_eq!((sa.len(), mh.hasher_count()), (k, k), "signature length");
    // set semantics
    let mut a2: Vec<u64> = a.iter().chain(a.iter()).copied().collect();
    Sm::new(c.g.seed()).shuffle(&mut a2);
    ensure_eq!(sig(&a2), sa, "signature depends on order or repetition");
    // union is the component-wise minimum; every item's own signature included
    let u: Vec<u64> = a.iter().chain(b.iter()).copied().collect();
    let want: Vec<u64> = sa.iter().zip(&sb).map(|(x, y)| *x.min(y)).collect();
    ensure_eq!(sig(&u), want, "signature of the union");
    let singles = a.iter().map(|x| sig(&[*x])).fold(vec![u64::MAX; k], |acc, s| acc.iter().zip(&s).map(|(x, y)| *x.min(y)).collect());
    ensure_eq!(sa, singles, "signature against the minimum over single items");
    // similarity
    let sim = mh.get_similarity(a.clone().into_iter(), b.clone().into_iter());
    let eq = sa.iter().zip(&sb).filter(|(x, y)| x == y).count();
    ensure!((sim - eq as f64 / k as f64).abs() < 1e-12, "similarity {} with {} of {} components equal", sim, eq, k);
    ensure!(sim == mh.get_similarity_from_hashes(&sa, &sb), "similarity from hashes");
    ensure!(sim == mh.get_similarity_from_hashes(&sb, &sa), "similarity is not symmetric");
    ensure!(mh.get_similarity(a.clone().into_iter(), a2.clone().into_iter()) == 1.0, "similarity of equal sets");
    // arbitrary signatures
    let x: Vec<u64> = (0..k).map(|_| c.g.below(3)).collect();
    let y: Vec<u64> = (0..k).map(|_| c.g.below(3)).collect();
    let eq = x.iter().zip(&y).filter(|(p, q)| p == q).count();
    let got = mh.get_similarity_from_hashes(&x, &y);
    ensure!((got - eq as f64 / k as f64).abs() < 1e-12, "similarity {} with {} of {} components equal", got, eq, k);
    // another instance with the same builders, and the default ones
    let again = Mh::with_hashers(k, *mh.hashers());
    ensure_eq!(again.get_min_hashes(a.clone().into_iter()), sa, "signature of an equal instance");
    let own = MinHash::<IntoIter<u64>, u64>::new(k);
    ensure_eq!(own.get_min_hashes(a.clone().into_iter()), own.get_min_hashes(a2.into_iter()), "signature with own seeds");
    let (da, db): (BTreeSet<_>, BTreeSet<_>) = (a.iter().collect(), b.iter().collect());
    c.label_if(da == db, "equal sets");
    if da != db && a.len() > 1 && b.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn c22_measured(c: &mut Case) -> R {
    let k = c.g.us(4, 200);
    let both = c.g.us(0, 60);
    let (oa, ob) = (c.g.us(0, 60), c.g.us(0, 60));
    let both = if both + oa == 0 || both + ob == 0 { 1 + both } else { both };
    let j = both as f64 / (both + oa + ob) as f64;
    let mut rng = Sm::new(c.g.seed());
    let reps = (3_000_000 / (k * (2 * both + oa + ob) + 100)).clamp(60, 1500);
    let mut est = Vec::new();
    let use_sip = c.g.chance(1, 2);
    for _ in 0..reps {
        let hb = if use_sip {
            [HB::Sip(sip(rng.next(), rng.next())), HB::Sip(sip(rng.next(), rng.next()))]
        } else {
            [HB::Mix(rng.next()), HB::Mix(rng.next())]
        };
        let mh = Mh::with_hashers(k, hb);
        let base = rng.next();
        let it = |from: usize, to: usize| (from..to).map(|i| base.wrapping_add(i as u64)).collect::<Vec<_>>();
        let a = it(0, both + oa);
        let mut b = it(0, both);
        b.extend(it(1000, 1000 + ob));
        est.push(mh.get_similarity(a.into_iter(), b.into_iter()));
    }
    let r = reps as f64;
    let mean = est.iter().sum::<f64>() / r;
    // The components come from double hashing: for a few seeds the items' hashes are so close to a common
    // progression that many components agree. They are too rare to move the mean but dominate the plain
    // variance, so that the largest twentieth of the deviations is left out of it.
    let mut dev: Vec<f64> = est.iter().map(|x| (x - j).powi(2)).collect();
    dev.sort_by(f64::total_cmp);
    dev.truncate(reps - reps / 20);
    let sd = (dev.iter().sum::<f64>() / r).sqrt();
    let theory = (j * (1.0 - j) / k as f64).sqrt();
    let lim = SIGMA * theory / r.sqrt() * 1.2 + 18.0 / (r * k as f64);
    tr!(c, "J {:.4} ({} shared, {} and {} own), {} hash functions, {} seeds: mean {:.4}, deviation {:.4} (theory {:.4})", j, both, oa, ob, k, reps, mean, sd, theory);
    ensure!((mean - j).abs() <= lim, "mean estimate {:.5} of a similarity of {:.5} with {} hash functions, {} seeds", mean, j, k, reps);
    // the fourth moment matters for few hash functions or similarities near 0 and 1
    let jj = (j * (1.0 - j)).max(1e-9);
    let kurt = 3.0 + (1.0 - 6.0 * jj) / (jj * k as f64);
    let slim = theory * (1.1 + SIGMA * ((kurt - 1.0).max(1.0) / (4.0 * r)).sqrt()) + 6.0 / (r * k as f64);
    ensure!(sd <= slim, "estimates of {:.5} deviate by {:.5} with {} hash functions, {} seeds; theory {:.5}, limit {:.5}", j, sd, k, reps, theory, slim);
    // Chebyshev's inequality
    let far = est.iter().filter(|x| (**x - j).abs() > 3.0 * theory + 1e-9).count() as f64;
    ensure!(far <= upper(r, 1.0 / 9.0), "{} of {} estimates of {:.5} are more than three deviations ({:.5}) off", far, reps, j, theory);
    c.nontrivial();
    Ok(())
}

/// Long signatures and large sets.
fn c22_large(c: &mut Case) -> R {
    let k = c.g.logu(1, 8000);
    let n = c.g.logu(1, (1_500_000 / k).clamp(1, 100_000));
    let hb = good_pair(&mut c.g);
    let mh = Mh::with_hashers(k, hb);
    let mut rng = Sm::new(c.g.seed());
    let a: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let cut = c.g.us(0, n);
    let mut b: Vec<u64> = a[cut..].to_vec();
    b.extend((0..c.g.us(1, n)).map(|_| rng.next()));
    let sig = |v: &[u64]| mh.get_min_hashes(v.to_vec().into_iter());
    let (sa, sb) = (sig(&a), sig(&b));
    ensure_eq!((sa.len(), mh.hasher_count()), (k, k), "signature length");
    // split in blocks: the signature is the minimum over them
    let block = c.g.us(1, n);
    let mut want = vec![u64::MAX; k];
    for p in a.chunks(block) {
        want = want.iter().zip(&sig(p)).map(|(x, y)| *x.min(y)).collect();
    }
    ensure!(sa == want, "the signature of {} items is not the minimum of the signatures of their blocks of {}", n, block);
    let mut r = a.clone();
    r.reverse();
    r.extend_from_slice(&a[..n / 2]);
    ensure!(sig(&r) == sa, "signature of {} items depends on order or repetition", n);
    let eq = sa.iter().zip(&sb).filter(|(x, y)| x == y).count();
    let sim = mh.get_similarity(a.clone().into_iter(), b.clone().into_iter());
    tr!(c, "{} hash functions, {} and {} items: {} components equal, similarity {}", k, n, b.len(), eq, sim);
    ensure!((sim - eq as f64 / k as f64).abs() < 1e-12, "similarity {} with {} of {} components equal", sim, eq, k);
    ensure!(mh.get_similarity(a.clone().into_iter(), r.into_iter()) == 1.0, "similarity of equal sets");
    ensure!(mh.get_similarity_from_hashes(&sb, &sa) == sim, "similarity from signatures");
    // any number of equal components
    let equal = c.g.us(0, k);
    let x: Vec<u64> = (0..k as u64).collect();
    let y: Vec<u64> = (0..k).map(|i| if i < equal { i as u64 } else { u64::MAX }).collect();
    let got = mh.get_similarity_from_hashes(&x, &y);
    ensure!((got - equal as f64 / k as f64).abs() < 1e-12, "similarity {} with {} of {} components equal", got, equal, k);
    c.label_if(k > 1000, "more than 1000 hash functions");
    c.label_if(n > 10_000, "more than 10000 items");
    c.nontrivial();
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "algebra: two different sets of more than one item; large, measured: all",
        assumptions: &["measured: SipHash or a 64-bit mixer as hash builders, limits of six standard deviations plus 10%; at most one estimate in nine is three standard deviations off, and the deviation without its largest twentieth is at most the theory"],
        scenarios: vec![
            Scenario { name: "algebra", cases: 107000, thorough: 40, f: c22_algebra },
            Scenario { name: "large", cases: 1000, thorough: 20, f: c22_large },
            Scenario { name: "measured", cases: 750, thorough: 40, f: c22_measured },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C23

type Sh = SimHash<IntoIter<u64>, u64, HB>;
fn sim(s: &Sh, v: &[u64]) -> u64 {
    s.get_sim_hash(v.to_vec().into_iter())
}

fn c23_majority(c: &mut Case) -> R {
    let hb = any_hb(&mut c.g);
    label_hb(c, &hb);
    let s = Sh::with_hasher(hb);
    let kinds = c.g.us(1, 12);
    let items: Vec<u64> = if hb == HB::Ident && c.g.chance(1, 2) {
        // dense patterns, so that ties and narrow majorities are frequent
        (0..kinds).map(|_| c.g.u64() & c.g.u64()).collect()
    } else {
        pool(&mut c.g, kinds)
    };
    let mut v: Vec<u64> = Vec::new();
    let big = c.g.chance(1, 40);
    for x in &items {
        let n = if big { c.g.us(0, 3000) } else { c.g.us(0, 6) };
        v.extend(std::iter::repeat(*x).take(n));
    }
    Sm::new(c.g.seed()).shuffle(&mut v);
    tr!(c, "hasher {:?} items {:?}", hb, &v[..v.len().min(40)]);
    let mut votes = [0i64; 64];
    let mut cache = BTreeMap::new();
    for x in &v {
        let f = *cache.entry(*x).or_insert_with(|| sim(&s, &[*x]));
        for (i, w) in votes.iter_mut().enumerate() {
            *w += if f >> i & 1 == 1 { 1 } else { -1 };
        }
    }
    let want = (0..64).fold(0u64, |a, i| a | ((votes[i] >= 0) as u64) << i);
    let got = sim(&s, &v);
    ensure!(got == want, "fingerprint {:064b} is not the majority {:064b} of {:?}", got, want, v);
    let mut w = v.clone();
    w.reverse();
    w.extend(v.clone());
    w.extend(v.clone());
    Sm::new(c.g.seed()).shuffle(&mut w);
    ensure!(sim(&s, &w) == got, "fingerprint changes by order or by repeating the multiset");
    let again = Sh::with_hasher(*s.hasher());
    ensure!(sim(&again, &v) == got, "fingerprint of an equal instance");
    c.label_if(votes.contains(&0) && !v.is_empty(), "ties");
    c.label_if(v.is_empty(), "empty");
    if cache.len() >= 2 {
        c.nontrivial();
    }
    Ok(())
}

/// Every bit of the fingerprints varies, and no two bits are the same function.
fn c23_bits(c: &mut Case) -> R {
    let hb = good_hb(&mut c.g);
    let s = Sh::with_hasher(hb);
    let mut rng = Sm::new(c.g.seed());
    let n = 400;
    let per = c.g.us(1, 5);
    let f: Vec<u64> = (0..n).map(|_| sim(&s, &(0..per).map(|_| rng.next()).collect::<Vec<_>>())).collect();
    let col: Vec<Vec<bool>> = (0..64).map(|i| f.iter().map(|x| x >> i & 1 == 1).collect()).collect();
    // ties of an even number of items raise the share of ones
    let tie = if per % 2 == 0 { 0.5 * [0.0, 0.0, 0.5, 0.0, 0.375][per] } else { 0.0 };
    for i in 0..64 {
        let ones = col[i].iter().filter(|x| **x).count() as f64;
        let p = 0.5 + tie;
        ensure!(
            ones <= upper(n as f64, p) && ones >= lower(n as f64, p),
            "bit {} is one in {} of {} fingerprints of {} items each", i, ones, n, per
        );
        for j in 0..i {
            let agree = col[i].iter().zip(&col[j]).filter(|(x, y)| x == y).count() as f64;
            let p = p * p + (1.0 - p) * (1.0 - p);
            ensure!(
                agree <= upper(n as f64, p) + 12.0 && agree >= lower(n as f64, p) - 12.0,
                "bits {} and {} agree in {} of {} fingerprints", i, j, agree, n
            );
        }
    }
    tr!(c, "hasher {:?}, {} fingerprints of {} random items", hb, n, per);
    c.nontrivial();
    Ok(())
}

fn c23_angle(c: &mut Case) -> R {
    // many features of similar weight: the vote of a bit is close to a normal projection
    let n = c.g.us(60, 160);
    let mut rng = Sm::new(c.g.seed());
    let shared = c.g.unit(0.0, 1.0);
    let mut wa = vec![0u64; n];
    let mut wb = vec![0u64; n];
    for i in 0..n {
        let both = rng.unit() < shared;
        let (x, y) = (1 + rng.below(3), 1 + rng.below(3));
        if both {
            wa[i] = x;
            wb[i] = if rng.below(2) == 0 { x } else { y };
        } else if rng.below(2) == 0 {
            wa[i] = x;
        } else {
            wb[i] = y;
        }
    }
    // odd totals cannot tie
    if wa.iter().sum::<u64>() % 2 == 0 {
        wa[0] += 1;
    }
    if wb.iter().sum::<u64>() % 2 == 0 {
        wb[0] += 1;
    }
    let dot: u64 = wa.iter().zip(&wb).map(|(x, y)| x * y).sum();
    let norm = |v: &[u64]| (v.iter().map(|x| x * x).sum::<u64>() as f64).sqrt();
    let theta = (dot as f64 / (norm(&wa) * norm(&wb))).clamp(-1.0, 1.0).acos() / std::f64::consts::PI;
    let reps = 250;
    let mut diff = 0.0;
    for _ in 0..reps {
        let base = rng.next();
        let hb = if rng.below(2) == 0 { HB::Sip(sip(rng.next(), rng.next())) } else { HB::Mix(rng.next()) };
        let s = Sh::with_hasher(hb);
        let list = |w: &[u64]| {
            w.iter().enumerate().flat_map(|(i, n)| std::iter::repeat(base.wrapping_add(i as u64)).take(*n as usize)).collect::<Vec<_>>()
        };
        diff += (sim(&s, &list(&wa)) ^ sim(&s, &list(&wb))).count_ones() as f64;
    }
    let q = reps as f64 * 64.0;
    tr!(c, "{} features, angle/pi {:.4}: {} of {} bits differ", n, theta, diff, q);
    // the normal approximation is off by a few per cent of the angle at this many features
    let (hi, lo) = ((theta * 1.08 + 0.012).min(1.0), (theta * 0.92 - 0.012).max(0.0));
    ensure!(diff <= upper(q, hi) && diff >= lower(q, lo), "{:.4} of the bits differ at an angle of {:.4} pi ({} features)", diff / q, theta, n);
    c.nontrivial();
    Ok(())
}

/// Long multisets: margins beyond any narrow counter.
fn c23_large(c: &mut Case) -> R {
    let hb = if c.g.chance(1, 2) { good_hb(&mut c.g) } else { HB::Ident };
    let s = Sh::with_hasher(hb);
    let kinds = c.g.us(1, 6);
    let mut rng = Sm::new(c.g.seed());
    let items: Vec<u64> = (0..kinds).map(|_| rng.next() & if c.g.chance(1, 2) { rng.next() } else { u64::MAX }).collect();
    // nearly balanced or far from it
    let big = c.g.logu(100, 250_000);
    let counts: Vec<usize> = (0..kinds).map(|i| if i % 2 == 0 { big / kinds + c.g.us(0, 2) } else { c.g.us(0, 2) + if c.g.chance(1, 2) { big / kinds } else { 0 } }).collect();
    let mut v: Vec<u64> = Vec::new();
    for (x, n) in items.iter().zip(&counts) {
        v.extend(std::iter::repeat(*x).take(*n));
    }
    if c.g.chance(1, 2) {
        rng.shuffle(&mut v);
    }
    tr!(c, "hasher {:?}: items {:x?} with multiplicities {:?}", hb, items, counts);
    let mut votes = [0i64; 64];
    for (x, n) in items.iter().zip(&counts) {
        let f = sim(&s, &[*x]);
        for (i, w) in votes.iter_mut().enumerate() {
            *w += if f >> i & 1 == 1 { *n as i64 } else { -(*n as i64) };
        }
    }
    let want = (0..64).fold(0u64, |a, i| a | ((votes[i] >= 0) as u64) << i);
    let got = sim(&s, &v);
    ensure!(got == want, "fingerprint {:064b} is not the majority {:064b} of items {:x?} with multiplicities {:?}", got, want, items, counts);
    c.label_if(votes.iter().any(|w| w.abs() > 65_536), "margin above 65536");
    c.label_if(votes.iter().any(|w| w.abs() <= 2), "margin of at most two");
    c.nontrivial();
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "majority: at least two different items; large, bits, angle: all",
        assumptions: &["bits, angle: SipHash or a 64-bit mixer as hash builder, limits of six standard deviations"],
        scenarios: vec![
            Scenario { name: "majority", cases: 103000, thorough: 40, f: c23_majority },
            Scenario { name: "large", cases: 1000, thorough: 20, f: c23_large },
            Scenario { name: "bits", cases: 450, thorough: 40, f: c23_bits },
            Scenario { name: "angle", cases: 360, thorough: 40, f: c23_angle },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C24

fn neighbours(f: &[u64], w: usize) -> BTreeSet<(usize, usize)> {
    neighbour_list(f, w).into_iter().collect()
}
/// Sorted, each pair once.
fn neighbour_list(f: &[u64], w: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    for rot in 0..64 {
        let mut v: Vec<(u64, usize)> = f.iter().enumerate().map(|(i, x)| (x.rotate_left(rot), i)).collect();
        v.sort_unstable();
        for i in 0..v.len() {
            for j in i + 1..v.len().min(i.saturating_add(w)) {
                out.push((v[i].1.min(v[j].1), v[i].1.max(v[j].1)));
            }
        }
        if rot % 8 == 7 {
            out.sort_unstable();
            out.dedup();
        }
    }
    out
}

fn c24_window(c: &mut Case) -> R {
    let n = match c.g.weighted(&[1, 3, 5]) {
        0 => c.g.us(0, 3),
        1 => c.g.us(2, 14),
        _ => c.g.us(14, 70),
    };
    let w = match c.g.weighted(&[10, 2, 1]) {
        0 => c.g.us(2, 5),
        1 => (n + c.g.us(0, 4)).saturating_sub(2).max(2),
        _ => c.g.of(&[200, 64, 1 << 40, usize::MAX]),
    };
    let s = Sh::with_hasher(if c.g.chance(1, 3) { any_hb(&mut c.g) } else { HB::Ident });
    let base: Vec<u64> = (0..6).map(|_| c.g.u64()).collect();
    let docs: Vec<Vec<u64>> = (0..n)
        .map(|_| match c.g.weighted(&[4, 3, 2, 1]) {
            0 => vec![c.g.u64()],
            // near duplicates and duplicates
            1 => vec![c.g.of(&base) ^ 1u64 << c.g.below(64)],
            2 => vec![c.g.of(&base)],
            _ => (0..c.g.us(0, 5)).map(|_| c.g.below(8)).collect(),
        })
        .collect();
    let f: Vec<u64> = docs.iter().map(|d| sim(&s, d)).collect();
    tr!(c, "window {} fingerprints {:x?}", w, f);
    let want = neighbours(&f, w);
    let run = |s: &Sh, d: &[Vec<u64>]| s.report_similarities(w, d.iter().map(|x| x.clone().into_iter()).collect());
    let got = run(&s, &docs);
    let set: BTreeSet<(usize, usize)> = got.iter().copied().collect();
    ensure_eq!(set.len(), got.len(), "a pair is reported twice in {:?}", got);
    for (a, b) in &got {
        ensure!(a < b && *b < n, "reported pair ({}, {}) of {} inputs", a, b, n);
    }
    if let Some(p) = want.difference(&set).next() {
        fail!("pair {:?} is missing: window {} fingerprints {:x?}", p, w, f);
    }
    if let Some(p) = set.difference(&want).next() {
        fail!("pair {:?} is reported but never within a window of {}: fingerprints {:x?}", p, w, f);
    }
    // equal documents that fit in a window
    for i in 0..n {
        let same: Vec<usize> = (0..n).filter(|&j| f[j] == f[i]).collect();
        if same.len() <= w {
            for &j in &same {
                ensure!(i >= j || set.contains(&(i, j)), "equal documents {} and {} are not reported", i, j);
            }
        }
    }
    // only the fingerprints matter
    let d2: Vec<Vec<u64>> = docs.iter().map(|d| d.iter().rev().chain(d.iter()).copied().collect()).collect();
    let again: BTreeSet<(usize, usize)> = run(&s, &d2).into_iter().collect();
    ensure!(again == set, "documents of equal fingerprints give other pairs");
    c.label_if(n < w, "fewer documents than the window");
    c.label_if(n == 0, "no documents");
    c.label_if(want.len() < n * n.saturating_sub(1) / 2, "some pairs apart");
    if n >= 3 && want.len() < n * (n - 1) / 2 {
        c.nontrivial();
    }
    Ok(())
}

/// Many documents.
fn c24_large(c: &mut Case) -> R {
    let n = c.g.logu(60, 1500);
    let w = c.g.logu(2, (n / 4).min(60_000 / n).max(3));
    c24_many(c, n, w)
}
/// Tens of thousands of documents, or a window of hundreds that is nearly as large as the input.
fn c24_huge(c: &mut Case) -> R {
    let (n, w) = if c.g.chance(1, 2) {
        (c.g.logu(5000, 90_000), if c.g.chance(3, 4) { 2 } else { 3 })
    } else {
        let w = c.g.logu(70, 450);
        (w + c.g.us(1, 5), w)
    };
    c.label_if(n > 1 << 15, "more than 2^15 documents");
    c.label_if(w > 255, "window above 255");
    c24_many(c, n, w)
}
fn c24_many(c: &mut Case, n: usize, w: usize) -> R {
    let s = Sh::with_hasher(HB::Ident);
    let mut rng = Sm::new(c.g.seed());
    let kinds = c.g.logu(1, n);
    let base: Vec<u64> = (0..kinds).map(|_| rng.next()).collect();
    let flips = c.g.us(0, 6);
    let docs: Vec<u64> = (0..n)
        .map(|_| {
            let mut x = base[rng.below(kinds as u64) as usize];
            for _ in 0..rng.below(flips as u64 + 1) {
                x ^= 1 << rng.below(64);
            }
            x
        })
        .collect();
    let f: Vec<u64> = docs.iter().map(|d| sim(&s, &[*d])).collect();
    let want = neighbour_list(&f, w);
    let mut set = s.report_similarities(w, docs.iter().map(|x| vec![*x].into_iter()).collect());
    tr!(c, "{} documents, {} kinds, up to {} flips, window {}: {} pairs", n, kinds, flips, w, set.len());
    let len = set.len();
    set.sort_unstable();
    set.dedup();
    ensure_eq!(set.len(), len, "a pair of {} documents is reported twice", n);
    if set != want {
        if let Some(p) = want.iter().find(|p| set.binary_search(p).is_err()) {
            fail!("pair {:?} of {} documents is missing at window {}: {:x?}", p, n, w, (f[p.0], f[p.1]));
        }
        if let Some(p) = set.iter().find(|p| want.binary_search(p).is_err()) {
            fail!("pair {:?} of {} documents is never within a window of {}", p, n, w);
        }
    }
    c.label_if(n > 256, "more than 256 documents");
    c.label_if(w > 16, "window above 16");
    if want.len() < n * (n - 1) / 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "at least three documents and at least one pair that must not be reported",
        assumptions: &["fingerprints are those get_sim_hash returns"],
        scenarios: vec![
            Scenario { name: "window", cases: 16000, thorough: 40, f: c24_window },
            Scenario { name: "large", cases: 150, thorough: 20, f: c24_large },
            Scenario { name: "huge", cases: 40, thorough: 20, f: c24_huge },
        ],
        known: vec![],
    }
}
