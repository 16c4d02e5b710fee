//! C14-C18: count-min sketches and HyperLogLog.
use crate::keys::*;
use engine::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    static SEEN: RefCell<(i64, usize, usize, Vec<i64>, bool)> = const { RefCell::new((0, 0, 0, Vec::new(), false)) };
}
/// A strategy that records what it is given.
pub struct Spy;
impl CountStrategy for Spy {
    fn get_estimate(items: i64, rows: usize, cols: usize, mut iter: ItemValueIter<'_>) -> i64 {
        let again: Vec<i64> = iter.clone().collect();
        let mut cells = Vec::new();
        while cells.len() <= rows + 2 {
            match iter.next() {
                Some(x) => cells.push(x),
                None => break,
            }
        }
        let ended = iter.next().is_none() && again == cells;
        SEEN.with(|s| *s.borrow_mut() = (items, rows, cols, cells, ended));
        7
    }
}
type Sketch<S> = CountMinSketch<S, u64, HB>;
/// Total, dimensions and counters as a custom strategy sees them.
fn cells(s: &Sketch<Spy>, k: u64) -> Result<(i64, Vec<i64>), String> {
    let r = s.count(&k);
    let (items, rows, cols, v, ended) = SEEN.with(|x| x.borrow().clone());
    ensure_eq!(r, 7, "count is not what the strategy returned");
    ensure_eq!((rows, cols), (s.rows(), s.cols()), "dimensions given to the strategy");
    ensure_eq!(v.len(), rows, "number of counters given to the strategy");
    ensure!(ended, "counter iterator restarts or does not clone");
    Ok((items, v))
}

struct Geo {
    rows: usize,
    cols: usize,
    hb: [HB; 2],
}
impl Geo {
    fn mk<S: CountStrategy>(&self) -> Sketch<S> {
        Sketch::<S>::with_hashers(self.rows, self.cols, self.hb)
    }
}
fn geo(c: &mut Case, min_cols: usize, max_cols: usize) -> Geo {
    let rows = if c.g.chance(1, 25) { c.g.us(10, 90) } else { c.g.us(1, 9) };
    c.label_if(rows > 16, "more than 16 rows");
    let cols = if c.g.chance(1, 3) { 1usize << c.g.us(1, 6) } else { c.g.us(min_cols, max_cols) };
    let hb = any_pair(&mut c.g);
    label_hb(c, &hb[0]);
    tr!(c, "rows {} cols {} hashers {:?}", rows, cols, hb);
    Geo { rows, cols, hb }
}
/// Which keys share a counter in which row: `m[i][j][r]`.
#[allow(clippy::type_complexity)]
fn collisions(g: &Geo, keys: &[u64]) -> Result<Vec<Vec<Vec<bool>>>, String> {
    let n = keys.len();
    let mut m = Vec::new();
    for k in keys {
        let mut s = g.mk::<Spy>();
        s.insert(k, 1);
        let mut row = Vec::new();
        for j in keys {
            let (items, v) = cells(&s, *j)?;
            ensure_eq!(items, 1, "total after one insertion");
            ensure!(v.iter().all(|&x| x == 0 || x == 1), "counters {:?} after a single insertion", v);
            row.push(v.iter().map(|&x| x == 1).collect::<Vec<_>>());
        }
        m.push(row);
    }
    for i in 0..n {
        ensure!(m[i][i].iter().all(|&x| x), "item {} is missing from one of its own rows", keys[i]);
        for j in 0..n {
            ensure_eq!(m[i][j], m[j][i], "sharing of {} and {} is not symmetric", keys[i], keys[j]);
        }
    }
    // per row, sharing is an equivalence
    for r in 0..g.rows {
        for i in 0..n {
            let first = (0..n).find(|&j| m[i][j][r]).unwrap();
            for j in 0..n {
                ensure_eq!(m[i][j][r], m[first][j][r], "row {} is not one grid row", r);
            }
        }
    }
    Ok(m)
}
fn value(c: &mut Case, big: bool) -> i64 {
    match c.g.weighted(&[4, 4, 2, 1]) {
        0 => 1,
        1 => c.g.irange(-5, 20),
        2 => c.g.irange(-1000, 1000),
        _ => {
            let m = if big { 1i64 << 50 } else { 1 << 30 };
            c.g.irange(-m, m)
        }
    }
}
struct Hist {
    net: Vec<i64>,
    cells: Vec<Vec<i64>>,
}
impl Hist {
    fn total(&self) -> i64 {
        self.net.iter().sum()
    }
}
fn model_cells(m: &[Vec<Vec<bool>>], net: &[i64], rows: usize) -> Vec<Vec<i64>> {
    (0..net.len())
        .map(|i| (0..rows).map(|r| (0..net.len()).filter(|&j| m[i][j][r]).map(|j| net[j]).sum()).collect())
        .collect()
}

fn c14_history(c: &mut Case) -> R {
    let g = geo(c, 1, 48);
    c14_run(c, g, 14)
}
/// Up to 200000 columns, or up to 600 rows.
fn c14_wide(c: &mut Case) -> R {
    let many_rows = c.g.chance(1, 2);
    let (rows, cols) = if many_rows { (c.g.us(60, 600), c.g.us(1, 12)) } else { (c.g.us(1, 7), c.g.logu(100, 200_000)) };
    let hb = good_pair(&mut c.g);
    label_hb(c, &hb[0]);
    tr!(c, "rows {} cols {} hashers {:?}", rows, cols, hb);
    c.label_if(rows > 256, "more than 256 rows");
    c.label_if(cols > 1 << 16, "more than 2^16 columns");
    c14_run(c, Geo { rows, cols, hb }, 5)
}
fn c14_run(c: &mut Case, g: Geo, most: usize) -> R {
    let n = c.g.us(1, most);
    let keys = pool(&mut c.g, n);
    let n = keys.len();
    let m = collisions(&g, &keys)?;
    let signed = c.g.chance(1, 3);
    let mut s = g.mk::<CountMinStrategy>();
    let mut h = Hist { net: vec![0; n], cells: vec![vec![0; g.rows]; n] };
    let steps = c.g.us(1, 40);
    let mut shared = false;
    let mut alone = false;
    for step in 0..steps {
        match c.g.weighted(&[12, 6, 1]) {
            w @ 0..=1 => {
                let i = c.g.idx(n);
                let mut v = value(c, true);
                if !signed {
                    v = v.abs();
                    if w == 1 {
                        v = v.min(h.net[i]);
                    }
                }
                if w == 0 {
                    tr!(c, "insert({}, {})", keys[i], v);
                    s.insert(&keys[i], v);
                    h.net[i] += v;
                } else {
                    tr!(c, "remove({}, {})", keys[i], v);
                    s.remove(&keys[i], v);
                    h.net[i] -= v;
                }
            }
            _ => {
                tr!(c, "clear");
                s.clear();
                h.net = vec![0; n];
            }
        }
        if step % 4 == 3 || step + 1 == steps {
            h.cells = model_cells(&m, &h.net, g.rows);
            let nonneg = h.net.iter().all(|&x| x >= 0);
            for i in 0..n {
                let est = s.count(&keys[i]);
                ensure_eq!(est, *h.cells[i].iter().min().unwrap(), "count({}) after step {}", keys[i], step);
                let lonely = (0..g.rows).any(|r| (0..n).all(|j| j == i || !m[i][j][r] || h.net[j] == 0));
                if nonneg {
                    ensure!(est >= h.net[i], "count({}) = {} undershoots {}", keys[i], est, h.net[i]);
                    if lonely {
                        ensure_eq!(est, h.net[i], "count({}) of an item with a counter of its own", keys[i]);
                        alone = true;
                    }
                    shared |= est > h.net[i];
                }
            }
        }
    }
    c.label_if(shared, "overestimated");
    c.label_if(alone, "exact");
    c.label_if(signed, "signed nets");
    if n >= 2 && h.net.iter().filter(|&&x| x != 0).count() >= 2 {
        c.nontrivial();
    }
    // linearity: any other history with the same net counts, in another sketch
    let mut order: Vec<usize> = (0..n).collect();
    let mut rng = Sm::new(c.g.seed());
    rng.shuffle(&mut order);
    let mut t = g.mk::<CountMinStrategy>();
    for &i in &order {
        let extra = rng.below(100) as i64;
        t.insert(&keys[i], h.net[i] + extra);
        for &j in &order {
            t.insert(&keys[j], 3);
        }
        t.remove(&keys[i], extra - 5);
    }
    for &i in order.iter().rev() {
        t.remove(&keys[i], 3 * n as i64);
        t.insert(&keys[i], -2);
        t.remove(&keys[i], 3);
    }
    for i in 0..n {
        ensure_eq!(t.count(&keys[i]), s.count(&keys[i]), "count({}) depends on the order of operations", keys[i]);
    }
    // removing everything restores the empty sketch, and so does clear
    for &i in &order {
        t.remove(&keys[i], h.net[i]);
    }
    s.clear();
    for k in &keys {
        ensure_eq!(t.count(k), 0, "count({}) after everything was removed", k);
        ensure_eq!(s.count(k), 0, "count({}) after clear", k);
    }
    ensure_eq!((s.rows(), s.cols(), t.rows(), t.cols()), (g.rows, g.cols, g.rows, g.cols), "dimensions");
    Ok(())
}

fn c14_bulk(c: &mut Case) -> R {
    let by_error = c.g.chance(1, 2);
    let hb = any_pair(&mut c.g);
    let (mut s, what) = if by_error {
        let (e, d) = (c.g.flog(1e-4, 0.9), c.g.flog(1e-6, 0.9));
        (Sketch::<CountMinStrategy>::from_error_with_hashers(e, d, hb), format!("from_error({}, {})", e, d))
    } else {
        let (r, k) = (c.g.us(1, 16), c.g.logu(1, 70_000));
        (Sketch::<CountMinStrategy>::with_hashers(r, k, hb), format!("new({}, {})", r, k))
    };
    tr!(c, "{} hashers {:?}", what, hb);
    let n = c.g.logu(10, 3000);
    let mut rng = Sm::new(c.g.seed());
    let dense = c.g.chance(1, 2);
    let mut net: BTreeMap<u64, i64> = BTreeMap::new();
    for i in 0..n {
        let k = if dense { i as u64 } else { rng.next() >> rng.below(60) };
        let v = 1 + rng.below(20) as i64;
        s.insert(&k, v);
        *net.entry(k).or_insert(0) += v;
        if rng.below(3) == 0 {
            let w = rng.below(v as u64 + 1) as i64;
            s.remove(&k, w);
            *net.get_mut(&k).unwrap() -= w;
        }
    }
    let total: i64 = net.values().sum();
    let mut over = 0;
    for (k, v) in &net {
        let est = s.count(k);
        ensure!(est >= *v, "count({}) = {} undershoots {}", k, est, v);
        ensure!(est <= total, "count({}) = {} exceeds the total {}", k, est, total);
        over += (est > *v) as usize;
    }
    c.label_if(over > 0, "overestimates");
    c.label_if(over < net.len(), "exact estimates");
    c.nontrivial();
    for (k, v) in &net {
        s.remove(k, *v);
    }
    for k in net.keys() {
        ensure_eq!(s.count(k), 0, "count({}) after everything was removed", k);
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "history, wide: at least two items with non-zero net counts at the end; bulk: all",
        assumptions: &["net counts stay below 2^56, far from the overflow of a counter"],
        scenarios: vec![
            Scenario { name: "history", cases: 103000, thorough: 40, f: c14_history },
            Scenario { name: "wide", cases: 3000, thorough: 40, f: c14_wide },
            Scenario { name: "bulk", cases: 6000, thorough: 40, f: c14_bulk },
        ],
        known: vec![],
    }
}

fn c16_history(c: &mut Case) -> R {
    let g = geo(c, 2, 40);
    c16_run(c, g, 12)
}
/// Up to 200000 columns, or up to 400 rows.
fn c16_wide(c: &mut Case) -> R {
    let many_rows = c.g.chance(1, 3);
    let (rows, cols) = if many_rows { (c.g.us(40, 400), c.g.us(2, 12)) } else { (c.g.us(1, 7), c.g.logu(100, 200_000)) };
    let hb = good_pair(&mut c.g);
    label_hb(c, &hb[0]);
    tr!(c, "rows {} cols {} hashers {:?}", rows, cols, hb);
    c.label_if(rows > 128, "more than 128 rows");
    c.label_if(cols > 1 << 16, "more than 2^16 columns");
    c.nontrivial();
    c16_run(c, Geo { rows, cols, hb }, if many_rows { 4 } else { 6 })
}
fn c16_run(c: &mut Case, g: Geo, most: usize) -> R {
    let n = c.g.us(1, most);
    let keys = pool(&mut c.g, n);
    let n = keys.len();
    let m = collisions(&g, &keys)?;
    let (mut spy, mut smin) = (g.mk::<Spy>(), g.mk::<CountMinStrategy>());
    let (mut smean, mut smed) = (g.mk::<CountMeanStrategy>(), g.mk::<CountMedianBiasStrategy>());
    let mut h = Hist { net: vec![0; n], cells: vec![] };
    let steps = c.g.us(1, 24);
    let mut distinct = false;
    let mut below_min = false;
    let mut fraction = false;
    let mut neg = false;
    for step in 0..steps {
        if c.g.chance(1, 20) {
            tr!(c, "clear");
            spy.clear();
            smin.clear();
            smean.clear();
            smed.clear();
            h.net = vec![0; n];
        } else {
            let i = c.g.idx(n);
            let v = value(c, false);
            let k = &keys[i];
            if c.g.chance(1, 3) {
                tr!(c, "remove({}, {})", k, v);
                spy.remove(k, v);
                smin.remove(k, v);
                smean.remove(k, v);
                smed.remove(k, v);
                h.net[i] -= v;
            } else {
                tr!(c, "insert({}, {})", k, v);
                spy.insert(k, v);
                smin.insert(k, v);
                smean.insert(k, v);
                smed.insert(k, v);
                h.net[i] += v;
            }
        }
        if step % 3 != 2 && step + 1 != steps {
            continue;
        }
        h.cells = model_cells(&m, &h.net, g.rows);
        let total = h.total();
        for i in 0..n {
            let k = keys[i];
            let (items, v) = cells(&spy, k)?;
            ensure_eq!(items, total, "total given to a custom strategy after step {}", step);
            ensure_eq!(v, h.cells[i], "counters of {} given to a custom strategy after step {}", k, step);
            let v = &h.cells[i];
            let min = *v.iter().min().unwrap();
            distinct |= v.iter().any(|&x| x != min);
            neg |= min < 0;
            ensure_eq!(smin.count(&k), min, "minimum estimate of {}", k);
            // mean, rounded to the nearest integer
            let sum: i64 = v.iter().sum();
            let est = smean.count(&k);
            let rows = g.rows as i64;
            ensure!(
                2 * (est * rows - sum).abs() <= rows,
                "mean estimate of {} is {} for the counters {:?}", k, est, v
            );
            fraction |= sum % rows != 0;
            // median after removing the noise, rounded up
            let mut w: Vec<i64> = v
                .iter()
                .map(|&x| {
                    let (a, b) = (total - x, g.cols as i64 - 1);
                    let up = a.div_euclid(b) + (a.rem_euclid(b) != 0) as i64;
                    x - up
                })
                .collect();
            w.sort_unstable();
            let med = w[(w.len() - 1) / 2];
            below_min |= med < min;
            ensure_eq!(
                smed.count(&k),
                med.min(min),
                "median-bias estimate of {} for the counters {:?}, total {}, columns {}", k, v, total, g.cols
            );
        }
    }
    c.label_if(distinct, "rows disagree");
    c.label_if(below_min, "median below minimum");
    c.label_if(fraction, "mean rounded");
    c.label_if(neg, "negative counters");
    if distinct {
        c.nontrivial();
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "history: some item's counters differ between rows; wide: all",
        assumptions: &["at least two columns", "counters below 2^36, where the strategies' floating point is exact"],
        scenarios: vec![
            Scenario { name: "history", cases: 103000, thorough: 40, f: c16_history },
            Scenario { name: "wide", cases: 3000, thorough: 40, f: c16_wide },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C15

fn c15_sizing(c: &mut Case) -> R {
    let hb = good_pair(&mut c.g);
    let delta = match c.g.weighted(&[4, 2, 1]) {
        0 => c.g.flog(1e-6, 0.999),
        1 => c.g.flog(1e-300, 1e-6),
        // next to a power of e
        _ => (-(c.g.us(1, 40) as f64)).exp() * (1.0 + c.g.unit(-1e-9, 1e-9)),
    };
    let need_rows = -delta.ln();
    let cap = 4e6 / need_rows.max(1.0);
    let eps = match c.g.weighted(&[4, 1]) {
        0 => c.g.flog(2.72 / cap, 0.999),
        _ => 1f64.exp() / c.g.logr(3, cap as u64) as f64 * (1.0 + c.g.unit(-1e-9, 1e-9)),
    };
    let need_cols = 1f64.exp() / eps;
    tr!(c, "from_error({}, {}): needs {} rows, {} columns", eps, delta, need_rows, need_cols);
    let entropy = c.g.chance(1, 4);
    let (rows, cols, conf, err) = if entropy {
        let s = CountMinSketch::<CountMinStrategy, u64>::from_error(eps, delta);
        (s.rows(), s.cols(), s.confidence(), s.error())
    } else {
        let s = Sketch::<CountMinStrategy>::from_error_with_hashers(eps, delta, hb);
        (s.rows(), s.cols(), s.confidence(), s.error())
    };
    let slack = 1e-12;
    ensure!(rows as f64 >= need_rows * (1.0 - slack), "{} rows are too few for delta {}", rows, delta);
    ensure!(rows as f64 - 1.0 <= need_rows * (1.0 + slack), "{} rows are too many for delta {}", rows, delta);
    ensure!(rows >= 1, "no rows");
    ensure!(cols as f64 >= need_cols * (1.0 - slack), "{} columns are too few for epsilon {}", cols, eps);
    ensure!(cols as f64 - 1.0 <= need_cols * (1.0 + slack), "{} columns are too many for epsilon {}", cols, eps);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * b;
    ensure!(near(conf, 1f64.exp() / cols as f64), "confidence {} with {} columns", conf, cols);
    ensure!(near(err, (-(rows as f64)).exp()), "error {} with {} rows", err, rows);
    ensure!(conf <= eps * (1.0 + slack) && err <= delta * (1.0 + slack), "reported {} {} exceed {} {}", conf, err, eps, delta);
    let (r, k) = (c.g.us(1, 40), c.g.logu(1, 20_000));
    let (s, t) = (Sketch::<CountMinStrategy>::with_hashers(r, k, hb), CountMinSketch::<CountMinStrategy, u64>::new(r, k));
    for (a, b, co, er) in [(s.rows(), s.cols(), s.confidence(), s.error()), (t.rows(), t.cols(), t.confidence(), t.error())] {
        ensure_eq!((a, b), (r, k), "dimensions");
        ensure!(near(co, 1f64.exp() / k as f64) && near(er, (-(r as f64)).exp()), "confidence {} error {} of {}x{}", co, er, r, k);
    }
    c.label_if(entropy, "from entropy");
    c.label_if(rows > 20, "over 20 rows");
    c.nontrivial();
    Ok(())
}

/// Streams for the measured guarantee: (item, count).
fn stream(c: &mut Case, eps: f64, rng: &mut Sm) -> Vec<(u64, i64)> {
    let heavy = (0.999 / eps).floor().max(1.0) as usize;
    match c.g.weighted(&[5, 2, 2]) {
        0 => {
            // as many equal heavy hitters as are each worth more than epsilon*N: one collision is a failure
            c.label("equal heavy hitters");
            let w = 1 + c.g.below(50) as i64;
            (0..heavy).map(|_| (rng.next(), w)).collect()
        }
        1 => {
            c.label("zipf");
            let n = heavy * 3;
            (0..n).map(|i| (rng.next(), (1000 * n / (i + 1)) as i64)).collect()
        }
        _ => {
            c.label("uniform");
            let n = heavy * 4;
            (0..n).map(|_| (rng.next(), 10)).collect()
        }
    }
}

fn overshoots(eps: f64, delta: f64, st: &[(u64, i64)], rng: &mut Sm, sip_too: bool) -> Result<bool, String> {
    let hb = if sip_too && rng.below(2) == 0 {
        [HB::Sip(sip(rng.next(), rng.next())), HB::Sip(sip(rng.next(), rng.next()))]
    } else {
        [HB::Mix(rng.next()), HB::Mix(rng.next())]
    };
    let mut s = Sketch::<CountMinStrategy>::from_error_with_hashers(eps, delta, hb);
    let mut n = 0;
    for (k, v) in st {
        s.insert(k, *v);
        n += v;
    }
    // an item that is not in the stream: all of its estimate is excess
    let x = rng.next();
    let est = s.count(&x);
    ensure!(est >= 0, "negative estimate {}", est);
    Ok(est as f64 > eps * n as f64)
}

fn c15_measured(c: &mut Case) -> R {
    let eps = c.g.flog(0.004, 0.6);
    let delta = c.g.flog(0.002, 0.7);
    let mut rng = Sm::new(c.g.seed());
    let st = stream(c, eps, &mut rng);
    let rows = (-delta.ln()).ceil().max(1.0);
    let cols = (1f64.exp() / eps).ceil();
    // double hashing: an item whose two hashes agree with another's collides in every row
    let pair = 1.2 * st.len() as f64 / (cols * cols);
    // enough repetitions to see the bound, within a budget
    let budget = 1_500_000.0 / (st.len() as f64 * rows + cols);
    let reps = (budget as usize).clamp(100, 6000);
    let mut bad = 0;
    for _ in 0..reps {
        bad += overshoots(eps, delta, &st, &mut rng, true)? as usize;
    }
    let limit = upper(reps as f64, delta + pair);
    tr!(c, "epsilon {} delta {} ({} items): {} of {} overestimated by more than epsilon*N, limit {:.1}", eps, delta, st.len(), bad, reps, limit);
    ensure!(bad as f64 <= limit, "epsilon {} delta {} ({} items): {} of {} exceed epsilon*N, limit {:.1}", eps, delta, st.len(), bad, reps, limit);
    c.label_if(bad > 0, "some exceed epsilon*N");
    if limit < reps as f64 * 0.9 {
        c.nontrivial();
    }
    Ok(())
}

/// Up to several hundred thousand columns: one sketch, many absent items.
fn c15_fine(c: &mut Case) -> R {
    let eps = c.g.flog(6e-6, 0.003);
    let rows = c.g.us(1, 4);
    let delta = (-(rows as f64)).exp() * if c.g.chance(1, 2) { 1.0 + 1e-9 } else { c.g.unit(1.0, 1.6) };
    let hb = good_pair(&mut c.g);
    let mut rng = Sm::new(c.g.seed());
    let mut s = Sketch::<CountMinStrategy>::from_error_with_hashers(eps, delta, hb);
    let heavy = (0.999 / eps).floor() as usize;
    let seq = c.g.chance(1, 2);
    let base = rng.next();
    for i in 0..heavy {
        s.insert(&if seq { base.wrapping_add(i as u64) } else { rng.next() }, 1);
    }
    let cols = s.cols() as f64;
    let q = 20_000;
    let n = heavy as f64;
    let bad = (0..q).filter(|_| s.count(&rng.next()) as f64 > eps * n).count();
    // the fill of one sketch varies by its square root
    let p = delta * (1.0 + 4.0 * rows as f64 / n.sqrt()) + 1.2 * n / (cols * cols);
    let limit = upper(q as f64, p);
    tr!(c, "epsilon {:e} delta {} ({} x {}): {} of {} absent items over epsilon*N, limit {:.0}", eps, delta, s.rows(), s.cols(), bad, q, limit);
    ensure!(bad as f64 <= limit, "epsilon {:e} delta {} ({} x {}): {} of {} absent items exceed epsilon*N, limit {:.0}", eps, delta, s.rows(), s.cols(), bad, q, limit);
    c.label_if(s.cols() > 1 << 16, "more than 2^16 columns");
    c.nontrivial();
    Ok(())
}

/// epsilon 0.085 (32 columns), delta 0.001, eleven equal heavy hitters: every pair of items shares all rows with probability
/// of about 1/cols^2, whatever the number of rows.
fn c15_pairwise() -> R {
    let mut rng = Sm::new(77);
    let reps = 30_000;
    let mut bad = 0;
    let st: Vec<(u64, i64)> = (0..11).map(|_| (rng.next(), 1)).collect();
    for _ in 0..reps {
        bad += overshoots(0.085, 0.001, &st, &mut rng, false)? as usize;
    }
    let limit = upper(reps as f64, 0.001);
    ensure!(bad as f64 <= limit, "{} of {} overestimated by more than epsilon*N, limit {:.0}", bad, reps, limit);
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "sizing: all; measured: the acceptance limit is below 90% of the repetitions",
        assumptions: &[
            "hash values of the measured scenario come from SipHash or a 64-bit mixer, seeded afresh for every repetition",
            "measured rates may exceed delta by six standard deviations and by the pairwise collision probability of double hashing (1.2*items/columns^2), which is the listed finding",
        ],
        scenarios: vec![
            Scenario { name: "sizing", cases: 18000, thorough: 40, f: c15_sizing },
            Scenario { name: "measured", cases: 750, thorough: 40, f: c15_measured },
            Scenario { name: "fine", cases: 480, thorough: 40, f: c15_fine },
        ],
        known: vec![KnownProbe {
            sig: "double-hashing-pairs",
            what: "epsilon 0.085, delta 0.001, eleven equal heavy hitters: an absent item exceeds epsilon*N more often than delta, because with double hashing two items share all rows with probability 1/columns^2",
            f: c15_pairwise,
        }],
    }
}

// ---------------------------------------------------------------------------------------------------- C17

type Hll = HyperLogLog<u64, HB>;

/// Relative error that `2^p` registers are for.
fn err_of(p: usize) -> f64 {
    1.04 / ((1u64 << p) as f64).sqrt()
}
/// The smallest `p` that meets the error.
fn p_of(e: f64) -> usize {
    let mut p = 1;
    while err_of(p) > e {
        p += 1;
    }
    p
}
/// Allowed RMSE as a multiple of e, and the known bias of the plain algorithm around the switch from linear counting.
/// Relative bias of the raw estimate with infinitely many registers and `t` items per register.
fn raw_bias(t: f64) -> f64 {
    let mut s = (-t).exp();
    for r in 1..80 {
        let w = 0.5f64.powi(r);
        s += w * ((-t * w).exp() - (-2.0 * t * w).exp());
    }
    0.7213 / s / t - 1.0
}
fn allowed(p: usize, t: f64) -> (f64, f64) {
    let hump = if t < 2.1 { 0.0003 } else { raw_bias(0.98 * t.max(2.4)).abs() + 0.0003 };
    let c = match p {
        0..=3 => 1.35,
        4 => 1.2,
        _ if t < 1.1 => 0.95,
        _ if t < 1.7 => 1.1,
        _ if t < 2.7 => 1.22,
        _ => 1.08,
    };
    (c, hump)
}
fn bias_allowed(p: usize, t: f64) -> f64 {
    let (_, hump) = allowed(p, t);
    let e = err_of(p);
    match p {
        0..=3 => 0.45 * e,
        4..=6 if t < 4.5 => 0.4 * e,
        _ if t < 4.5 => 0.18 * e + hump,
        _ => 0.03 * e + hump,
    }
}
fn check_stats(e: f64, p: usize, t: f64, ratios: &[f64]) -> R {
    let r = ratios.len() as f64;
    let (c, hump) = allowed(p, t);
    let mean = ratios.iter().map(|x| x - 1.0).sum::<f64>() / r;
    let rmse = (ratios.iter().map(|x| (x - 1.0).powi(2)).sum::<f64>() / r).sqrt();
    let tail = if p <= 4 { 2.0 } else { 1.2 };
    let lim = ((e * c).powi(2) + hump * hump).sqrt() * (1.0 + tail * SIGMA / (2.0 * r).sqrt());
    ensure!(rmse <= lim, "relative error {:.5} over {} sketches with configured error {:.5}, limit {:.5} ({:.2} items per register)", rmse, r, e, lim, t);
    let blim = bias_allowed(p, t).max(0.0) + SIGMA * 1.2 * e / r.sqrt();
    ensure!(mean.abs() <= blim, "bias {:.5} over {} sketches with configured error {:.5}, limit {:.5} ({:.2} items per register)", mean, r, e, blim, t);
    // the known bias of the raw estimate goes up only
    let low = if p <= 6 { blim } else { blim - hump + 0.0005 };
    ensure!(mean >= -low, "bias {:.5} over {} sketches with configured error {:.5}, lower limit {:.5} ({:.2} items per register)", mean, r, e, low, t);
    Ok(())
}

fn c17_measured(c: &mut Case) -> R {
    let p = c.g.us(3, 13);
    let at_boundary = c.g.chance(3, 4);
    let e = if at_boundary { err_of(p) * (1.0 + 1e-9) } else { (err_of(p) * c.g.unit(1.0, 1.4)).min(0.5) };
    let m = (1u64 << p) as f64;
    let t = match c.g.weighted(&[2, 4, 3, 1]) {
        0 => c.g.unit(0.0, 1.5),
        1 => c.g.unit(1.5, 5.0),
        2 => c.g.flog(5.0, 60.0),
        _ => c.g.flog(0.01, 0.3),
    };
    let n = ((m * t).round() as u64).max(1);
    let t = n as f64 / m;
    let mut rng = Sm::new(c.g.seed());
    let reps = (1_200_000 / (n + m as u64 / 8)).clamp(1, 3000);
    let use_sip = c.g.chance(1, 2);
    let dense = c.g.chance(1, 2);
    let mut ratios = Vec::new();
    for _ in 0..reps {
        let hb = if use_sip { HB::Sip(sip(rng.next(), rng.next())) } else { HB::Mix(rng.next()) };
        let mut h = Hll::with_hasher(e, hb);
        ensure!(h.len() == 0.0, "estimate {} of an empty sketch", h.len());
        let base = if dense { 0 } else { rng.next() };
        for i in 0..n {
            h.insert(&base.wrapping_add(i));
        }
        let est = h.len();
        ensure!(est.is_finite() && est >= 0.0, "estimate {} of {} items", est, n);
        for i in 0..n.min(20) {
            h.insert(&base.wrapping_add(i));
        }
        ensure!(h.len() == est, "duplicates change the estimate from {} to {}", est, h.len());
        ratios.push(est / n as f64);
    }
    // the error a sketch of these registers has, at most the configured one
    let pe = p_of(e);
    let t_eff = n as f64 / (1u64 << pe) as f64;
    tr!(c, "error {:.5} items {} ({:.2} per register) sketches {}: first estimates/items {:.3?}", e, n, t, reps, &ratios[..ratios.len().min(5)]);
    if reps >= 40 {
        check_stats(e, pe, t_eff, &ratios)?;
        c.nontrivial();
    } else {
        for x in &ratios {
            ensure!((x - 1.0).abs() <= 6.5 * e + allowed(pe, t_eff).1, "estimate is {} times the number of items {} with configured error {}", x, n, e);
        }
        c.label("single sketches");
        c.nontrivial();
    }
    c.label_if(t < 1.5, "few items");
    c.label_if((1.5..5.0).contains(&t), "around the switch");
    c.label_if(t >= 5.0, "many items");
    Ok(())
}

/// How a hash value determines register and rank; found by probing, not assumed.
#[derive(Clone, Copy, Debug)]
struct Layout {
    p: usize,
    index_low: bool,
    run_low: bool,
    run_ones: bool,
}
impl Layout {
    /// A hash value for a register with exactly the given rank (1-based), other bits from `rest`.
    fn word(&self, idx: u64, rank: usize, rest: u64) -> u64 {
        let w = 64 - self.p;
        let mut v = rest & (u64::MAX >> self.p);
        for i in 0..rank.min(w) {
            let bit = if self.run_low { i } else { w - 1 - i };
            let one = (i + 1 < rank) == self.run_ones;
            v = if one { v | 1 << bit } else { v & !(1 << bit) };
        }
        if self.index_low {
            v << self.p | idx
        } else {
            idx << w | v
        }
    }
}
fn state(h: &Hll) -> Vec<u8> {
    bincode::serialize(h).expect("serialize")
}
fn probe_layout(e: f64, p: usize) -> Option<Layout> {
    let mut rng = Sm::new(5);
    for bits in 0..8 {
        let l = Layout { p, index_low: bits & 1 == 0, run_low: bits & 2 == 0, run_ones: bits & 4 == 0 };
        let mut ok = true;
        for _ in 0..if p < 14 { 24 } else { 8 } {
            let idx = rng.below(1 << p);
            let other = (idx + 1 + rng.below((1 << p) - 1)) & ((1 << p) - 1);
            let r1 = 1 + rng.below(12) as usize;
            let r2 = r1 + 1 + rng.below(5) as usize;
            let mut h = Hll::with_hasher(e, HB::Ident);
            let s0 = state(&h);
            h.insert(&l.word(idx, r1, rng.next()));
            let s1 = state(&h);
            h.insert(&l.word(idx, r1, rng.next()));
            let s1b = state(&h);
            h.insert(&l.word(idx, r2, rng.next()));
            let s2 = state(&h);
            h.insert(&l.word(idx, r1, rng.next()));
            let s2b = state(&h);
            h.insert(&l.word(other, 1, rng.next()));
            let s3 = state(&h);
            ok &= s0 != s1 && s1 == s1b && s1 != s2 && s2 == s2b && s2 != s3;
        }
        if ok {
            return Some(l);
        }
    }
    None
}

fn c17_fine(c: &mut Case) -> R {
    // small errors: many registers
    let e = c.g.flog(0.0008, 0.03);
    let hb = good_hb(&mut c.g);
    let n = c.g.logr(1, 300_000);
    let base = c.g.seed();
    let mut h = Hll::with_hasher(e, hb);
    ensure!(h.len() == 0.0 && h.is_empty(), "new sketch: len {} is_empty {}", h.len(), h.is_empty());
    for i in 0..n {
        h.insert(&base.wrapping_add(i));
    }
    let est = h.len();
    tr!(c, "error {} hasher {:?} items {}: estimate {}", e, hb, n, est);
    let dev = (est / n as f64 - 1.0).abs();
    // few items: collisions of single registers
    let lim = 6.5 * e + allowed(p_of(e), n as f64 / (1u64 << p_of(e)) as f64).1 + 6.0 / n as f64 * (n as f64 * n as f64 * e * e / 2.0).sqrt().min(n as f64);
    ensure!(est.is_finite() && dev <= lim, "estimate {} of {} items with configured error {}", est, n, e);
    c.nontrivial();
    Ok(())
}

fn c17_huge(c: &mut Case) -> R {
    let p = c.g.us(3, 11);
    let e = err_of(p) * (1.0 + 1e-9);
    let m = 1u64 << p;
    let log_n = match c.g.weighted(&[3, 2, 2]) {
        0 => c.g.unit(29.0, 35.0),
        1 => c.g.unit((p as f64 + 3.0).min(29.0), 29.0),
        _ => c.g.unit(35.0, 58.0),
    };
    let n = 2f64.powf(log_n);
    let lambda = n / m as f64;
    let l = match probe_layout(e, p) {
        Some(l) => l,
        None => {
            c.label("layout unknown, skipped");
            return Ok(());
        }
    };
    c.label("layout found");
    let mut rng = Sm::new(c.g.seed());
    let reps = (400_000 / m).clamp(200, 12_000);
    let mut ratios = Vec::new();
    for _ in 0..reps {
        let mut h = Hll::with_hasher(e, HB::Ident);
        for idx in 0..m {
            // the largest rank among Poisson(lambda) random hash values
            let u = (1.0 - rng.unit()).max(1e-300);
            let r = (lambda / -u.ln()).log2().ceil().clamp(0.0, (64 - p) as f64) as usize;
            if r > 0 {
                h.insert(&l.word(idx, r, rng.next()));
            }
        }
        let est = h.len();
        ensure!(est.is_finite() && est >= 0.0, "estimate {} of about 2^{:.2} items", est, log_n);
        ratios.push(est / n);
    }
    tr!(c, "error {:.5} items 2^{:.3} sketches {} layout {:?}: first estimates/items {:.3?}", e, log_n, reps, l, &ratios[..3]);
    check_stats(e, p, lambda, &ratios).map_err(|m| format!("2^{:.3} items: {}", log_n, m))?;
    c.label_if(log_n > 32.0, "beyond 2^32 items");
    c.nontrivial();
    Ok(())
}

/// Many registers (configured errors down to 0.0005) at every load, each register's maximum drawn from its distribution.
fn c17_wide(c: &mut Case) -> R {
    let p = if c.g.chance(1, 10) { c.g.us(22, 24) } else { c.g.us(12, 21) };
    let e = err_of(p) * (1.0 + 1e-9);
    let m = 1u64 << p;
    let lambda = match c.g.weighted(&[2, 2, 3, 1, 2]) {
        0 => c.g.unit(0.05, 1.5),
        1 => c.g.unit(1.5, 6.0),
        2 => c.g.flog(6.0, 1e4),
        // around the switch from linear counting
        4 => c.g.unit(2.2, 2.9),
        _ => c.g.flog(1e4, 1e9),
    };
    let n = lambda * m as f64;
    let l = match probe_layout(e, p) {
        Some(l) => l,
        None => {
            c.label("layout unknown, skipped");
            return Ok(());
        }
    };
    let mut rng = Sm::new(c.g.seed());
    let reps = (3_000_000 / m).clamp(2, 60);
    let mut ratios = Vec::new();
    for _ in 0..reps {
        let mut h = Hll::with_hasher(e, HB::Ident);
        for idx in 0..m {
            let u = (1.0 - rng.unit()).max(1e-300);
            let r = (lambda / -u.ln()).log2().ceil().clamp(0.0, (64 - p) as f64) as usize;
            if r > 0 {
                h.insert(&l.word(idx, r, rng.next()));
            }
        }
        let est = h.len();
        ensure!(est.is_finite() && est >= 0.0, "estimate {} of about {} items", est, n);
        ratios.push(est / n);
    }
    tr!(c, "error {:.6} items {:.0} ({:.2} per register) sketches {}: first estimates/items {:.4?}", e, n, lambda, reps, &ratios[..2]);
    // drawing registers independently makes the number of items itself a Poisson variable
    check_stats((e * e + 1.1 / n).sqrt(), p, lambda, &ratios)?;
    c.label_if(p > 16, "more than 2^16 registers");
    c.nontrivial();
    Ok(())
}

fn c17_any(c: &mut Case) -> R {
    let e = c.g.flog(0.03, 0.9999);
    let hb = any_hb(&mut c.g);
    let mut h = Hll::with_hasher(e, hb);
    let n = c.g.logu(1, 4000);
    tr!(c, "error {} hasher {:?}, {} keys", e, hb, n);
    let keys = pool(&mut c.g, n.min(150));
    ensure!(h.len() == 0.0 && h.is_empty(), "new sketch: len {} is_empty {}", h.len(), h.is_empty());
    for (i, k) in keys.iter().enumerate() {
        h.insert(k);
        let est = h.len();
        ensure!(est.is_finite() && est >= 0.9, "estimate {} after {} items", est, i + 1);
        h.insert(k);
        h.insert(&keys[i / 2]);
        ensure!(h.len() == est, "duplicates change the estimate from {} to {}", est, h.len());
    }
    let mut rng = Sm::new(c.g.seed());
    for i in keys.len()..n {
        h.insert(&rng.next());
        if i % 64 == 0 {
            ensure!(h.len().is_finite() && h.len() >= 0.9, "estimate {} after {} items", h.len(), i + 1);
        }
    }
    // every bit pattern, all ones and all zeros included, in every register
    let mut h = Hll::with_hasher(e.max(0.05), HB::Ident);
    let m = 1u64 << p_of(e.max(0.05));
    let fill = c.g.of(&[u64::MAX, 0, u64::MAX << 32, u64::MAX >> 32]);
    for i in 0..m {
        h.insert(&((fill / m).wrapping_mul(m) | i));
        h.insert(&(fill & (u64::MAX / m) | i.wrapping_mul(u64::MAX / m + 1)));
        ensure!(h.len().is_finite() && h.len() >= 0.9, "estimate {} with extreme hash values", h.len());
    }
    c.nontrivial();
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "measured, huge, wide: the error was measured over at least one sketch; any: all",
        assumptions: &[
            "relative errors are judged for configured errors up to 1/2; two or four registers (beyond) have no finite variance to judge",
            "around 2.5 items per register the plain algorithm has a bias of up to 2.5%, which is accepted",
            "cardinalities beyond those that can be inserted are simulated by drawing every register's maximum from its distribution",
        ],
        scenarios: vec![
            Scenario { name: "measured", cases: 1000, thorough: 40, f: c17_measured },
            Scenario { name: "huge", cases: 580, thorough: 40, f: c17_huge },
            Scenario { name: "wide", cases: 80, thorough: 20, f: c17_wide },
            Scenario { name: "any", cases: 9000, thorough: 40, f: c17_any },
            Scenario { name: "fine", cases: 360, thorough: 40, f: c17_fine },
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------------------------------- C18

fn c18_sets(c: &mut Case) -> R {
    let e = c.g.flog(0.03, 0.99);
    let hb = any_hb(&mut c.g);
    label_hb(c, &hb);
    let np = c.g.us(1, 60);
    let keys = pool(&mut c.g, np);
    let draw = |c: &mut Case| -> Vec<u64> {
        let n = c.g.us(0, 30);
        (0..n).map(|_| *c.g.pick(&keys)).collect()
    };
    let (a, b, d) = (draw(c), draw(c), draw(c));
    tr!(c, "error {} hasher {:?} A {:?} B {:?} C {:?}", e, hb, a, b, d);
    let mk = |items: &[u64]| {
        let mut h = Hll::with_hasher(e, hb);
        for i in items {
            h.insert(i);
        }
        h
    };
    let canon = |sets: &[&Vec<u64>]| {
        let s: BTreeSet<u64> = sets.iter().flat_map(|v| v.iter().copied()).collect();
        mk(&s.into_iter().rev().collect::<Vec<_>>())
    };
    macro_rules! same {
        ($x:expr, $y:expr, $w:expr) => {{
            ensure!($x.len().to_bits() == $y.len().to_bits(), "{}: estimates {} and {}", $w, $x.len(), $y.len());
            ensure!(state(&$x) == state(&$y), "{}: states differ (A {:?} B {:?})", $w, a, b);
            ensure_eq!($x.is_empty(), $y.is_empty(), "{}: is_empty", $w);
        }};
    }
    // order and repetition
    let ha = mk(&a);
    same!(ha, canon(&[&a]), "order or repetition");
    ensure_eq!(ha.is_empty(), a.is_empty(), "is_empty of {:?}", a);
    let mut t = ha.clone();
    let before = state(&t);
    for i in &a {
        t.insert(i);
        let _ = t.len();
    }
    ensure!(state(&t) == before, "inserting items again changes the state");
    // merge is union
    let (hb_, hd) = (mk(&b), mk(&d));
    let sb = state(&hb_);
    let mut ab = ha.clone();
    ab.merge(&hb_);
    ensure!(state(&hb_) == sb, "merge changes its argument");
    same!(ab, canon(&[&a, &b]), "merge against union");
    let mut ba = hb_.clone();
    ba.merge(&ha);
    same!(ab, ba, "merge is not commutative");
    let mut aa = ha.clone();
    aa.merge(&ha.clone());
    same!(aa, ha, "merge is not idempotent");
    let mut ab_c = ab.clone();
    ab_c.merge(&hd);
    let mut bc = hb_.clone();
    bc.merge(&hd);
    let mut a_bc = ha.clone();
    a_bc.merge(&bc);
    same!(ab_c, a_bc, "merge is not associative");
    // merging goes on like the union
    let mut u = canon(&[&a, &b]);
    for i in d.iter() {
        u.insert(i);
        ab.insert(i);
    }
    same!(ab, u, "insertions after a merge");
    let mut e0 = mk(&[]);
    e0.merge(&ha);
    same!(e0, ha, "merge into an empty sketch");
    let mut z = ha.clone();
    z.merge(&mk(&[]));
    same!(z, ha, "merge of an empty sketch");
    // clear starts over
    z.clear();
    ensure!(z.is_empty(), "not empty after clear");
    for i in &b {
        z.insert(i);
    }
    same!(z, hb_, "history before clear");
    c.label_if(a.is_empty() || b.is_empty(), "an empty side");
    if !a.is_empty() && !b.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn c18_bulk(c: &mut Case) -> R {
    let e = if c.g.chance(1, 6) { c.g.flog(0.001, 0.004) } else { c.g.flog(0.01, 0.3) };
    let hb = good_hb(&mut c.g);
    let n = c.g.logu(100, 30_000) as u64;
    let parts = c.g.us(2, 6) as u64;
    let seed = c.g.seed();
    tr!(c, "error {} hasher {:?} {} items in {} parts", e, hb, n, parts);
    let mut all = Hll::with_hasher(e, hb);
    let mut part: Vec<Hll> = (0..parts).map(|_| Hll::with_hasher(e, hb)).collect();
    for i in 0..n {
        let k = i ^ seed;
        all.insert(&k);
        part[(engine::rng::mix(k) % parts) as usize].insert(&k);
        if i % 3 == 0 {
            part[(i % parts) as usize].insert(&k);
        }
    }
    let order: Vec<usize> = {
        let mut o: Vec<usize> = (0..parts as usize).collect();
        Sm::new(c.g.seed()).shuffle(&mut o);
        o
    };
    let mut m = Hll::with_hasher(e, hb);
    for i in order {
        m.merge(&part[i]);
    }
    ensure!(m.len().to_bits() == all.len().to_bits(), "merged estimate {} against {}", m.len(), all.len());
    ensure!(state(&m) == state(&all), "merged state differs");
    m.clear();
    ensure!(state(&m) == state(&Hll::with_hasher(e, hb)) && m.len() == 0.0, "cleared state differs from a new one");
    c.label_if(p_of(e) > 16, "more than 2^16 registers");
    c.nontrivial();
    Ok(())
}

fn c18_mismatch(c: &mut Case) -> R {
    let e = c.g.flog(0.03, 0.9);
    let hb = any_hb(&mut c.g);
    let (a, b) = (pool(&mut c.g, 10), c.g.us(0, 10));
    let mut x = Hll::with_hasher(e, hb);
    a.iter().for_each(|k| x.insert(k));
    let before = state(&x);
    let by_precision = c.g.chance(1, 2);
    let (e2, hb2) = if by_precision {
        (if e < 0.15 { e * c.g.unit(2.01, 6.0) } else { e / c.g.unit(2.01, 6.0) }, hb)
    } else {
        let h2 = any_hb(&mut c.g);
        (e, if h2 == hb { HB::Mix(c.g.u64() | 1 << 63) } else { h2 })
    };
    if hb == hb2 && !by_precision {
        return Ok(());
    }
    let mut y = Hll::with_hasher(e2, hb2);
    a[..b].iter().for_each(|k| y.insert(k));
    tr!(c, "merge of ({}, {:?}) and ({}, {:?})", e, hb, e2, hb2);
    ensure!(panics(|| x.merge(&y)).is_err(), "merging ({}, {:?}) and ({}, {:?}) does not panic", e, hb, e2, hb2);
    ensure!(state(&x) == before, "a rejected merge changes the sketch");
    let yb = state(&y);
    ensure!(panics(|| y.merge(&x)).is_err(), "merging ({}, {:?}) into ({}, {:?}) does not panic", e, hb, e2, hb2);
    ensure!(state(&y) == yb, "a rejected merge changes the sketch");
    // the default builder as well
    let mut d1 = HyperLogLog::<u64>::with_hasher(e, sip(c.g.u64(), 1));
    let d2 = HyperLogLog::<u64>::with_hasher(e, sip(1, c.g.u64() | 2));
    ensure!(panics(|| d1.merge(&d2)).is_err(), "merging sketches of different seeds does not panic");
    c.label(if by_precision { "precision" } else { "hash builder" });
    c.nontrivial();
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "sets: both merged sets are non-empty; bulk, mismatch: all",
        assumptions: &["states are compared by their serialised bytes and their estimates"],
        scenarios: vec![
            Scenario { name: "sets", cases: 101000, thorough: 40, f: c18_sets },
            Scenario { name: "bulk", cases: 6000, thorough: 40, f: c18_bulk },
            Scenario { name: "mismatch", cases: 12000, thorough: 40, f: c18_mismatch },
        ],
        known: vec![],
    }
}
