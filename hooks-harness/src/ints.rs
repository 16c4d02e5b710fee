//! C32: BitstringVec against Vec<u64>.
use engine::*;
use probabilistic_collections::verif_hooks::BitstringVec;

fn max(w: usize) -> u64 {
    if w == 64 {
        !0
    } else {
        (1 << w) - 1
    }
}

fn value(c: &mut Case, w: usize) -> u64 {
    match c.g.idx(5) {
        0 => 0,
        1 => max(w),
        2 => c.g.upto(1),
        3 => 1 << c.g.idx(w),
        _ => c.g.upto(max(w)),
    }
}

fn content(c: &mut Case, w: usize, n: usize) -> Vec<u64> {
    (0..n).map(|_| value(c, w)).collect()
}

fn make(c: &mut Case, w: usize, m: &[u64]) -> BitstringVec {
    let n = m.len();
    let fill = |b: &mut BitstringVec| m.iter().enumerate().for_each(|(i, &x)| b.set(i, x));
    match c.g.idx(6) {
        0 => {
            let mut b = BitstringVec::new(w, n);
            fill(&mut b);
            b
        }
        1 => {
            let mut b = BitstringVec::with_capacity(w, c.g.us(0, 50));
            m.iter().for_each(|&x| b.push(x));
            b
        }
        2 => {
            let mut b = BitstringVec::from_elem(w, n, max(w));
            fill(&mut b);
            b
        }
        3 => {
            let mut b = BitstringVec::from_elem(w, n + c.g.us(1, 9), max(w));
            fill(&mut b);
            if c.g.chance(1, 2) {
                b.truncate(n);
            } else {
                while b.len() > n {
                    b.pop();
                }
            }
            b
        }
        4 => {
            let mut o = BitstringVec::new(w, n);
            fill(&mut o);
            let mut b = BitstringVec::from_elem(c.g.us(1, 64), c.g.us(0, 20), 1);
            b.clone_from(&o);
            b
        }
        _ => {
            let mut b = BitstringVec::from_elem(w, n, 1);
            b.clear();
            fill(&mut b);
            bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap()
        }
    }
}

fn agree(b: &BitstringVec, w: usize, m: &[u64]) -> R {
    ensure_eq!(b.len(), m.len(), "len");
    ensure_eq!(b.is_empty(), m.is_empty(), "is_empty");
    ensure_eq!(b.bit_count(), w, "bit_count");
    for (i, &x) in m.iter().enumerate() {
        ensure_eq!(b.get(i), x, "get({}) at width {}", i, w);
    }
    ensure_eq!(b.iter().collect::<Vec<_>>(), m, "iter");
    ensure_eq!(b.occupied_len(), m.iter().filter(|&&x| x != 0).count(), "occupied_len of {:?}", m);
    ensure!(b.capacity() >= m.len(), "capacity {} below len {}", b.capacity(), m.len());
    Ok(())
}

fn history(c: &mut Case) -> R {
    let w = c.g.us(1, 64);
    let nmax = if c.g.chance(1, 6) { 150 } else { 20 };
    let n = c.g.us(0, nmax);
    let mut m = content(c, w, n);
    let mut b = make(c, w, &m);
    tr!(c, "width {} start {:?}", w, m);
    agree(&b, w, &m).map_err(|e| format!("after construction: {}", e))?;
    let mut ops = 0;
    while c.g.more(25) {
        let n = m.len();
        let name: String;
        match c.g.weighted(&[6, 4, 4, 2, 1, 3, 1, 2, 2]) {
            0 => {
                if n == 0 {
                    continue;
                }
                let (i, x) = (c.g.idx(n), value(c, w));
                name = format!("set({}, {})", i, x);
                b.set(i, x);
                m[i] = x;
            }
            1 => {
                let k = c.g.us(1, 5);
                name = format!("push x{}", k);
                for _ in 0..k {
                    let x = value(c, w);
                    tr!(c, "push({})", x);
                    let cap = b.capacity();
                    b.push(x);
                    m.push(x);
                    ensure!(b.capacity() <= 3 * cap + 600, "capacity {} after one push at capacity {}", b.capacity(), cap);
                }
            }
            2 => {
                let k = c.g.us(1, 5).min(n);
                name = format!("pop x{}", k);
                for _ in 0..k {
                    ensure_eq!(b.pop(), m.pop().unwrap(), "pop");
                }
            }
            3 => {
                let k = c.g.us(0, n + 3);
                name = format!("truncate({})", k);
                b.truncate(k);
                m.truncate(k);
            }
            4 => {
                name = "clear".into();
                b.clear();
                m.iter_mut().for_each(|x| *x = 0);
            }
            5 => {
                let mut mo = m.clone();
                let change = c.g.idx(3);
                if change == 1 && n > 0 {
                    let i = c.g.idx(n);
                    mo[i] ^= 1 << c.g.idx(w);
                }
                if change == 2 {
                    mo.push(0);
                }
                let o = make(c, w, &mo);
                name = format!("compare with {:?}", mo);
                ensure_eq!(b == o, m == mo, "equality of {:?} and {:?} at width {}", m, mo, w);
                ensure_eq!(o == b, m == mo, "equality of {:?} and {:?} at width {}, other way", m, mo, w);
            }
            6 => {
                let k = c.g.us(0, 60);
                name = format!("reserve {}", k);
                if c.g.chance(1, 2) {
                    b.reserve(k);
                } else {
                    b.reserve_exact(k);
                }
                ensure!(b.capacity() >= n + k, "capacity {} after reserving {} over {}", b.capacity(), k, n);
            }
            7 => {
                let n2 = c.g.us(0, 20);
                let mo = content(c, w, n2);
                let o = make(c, w, &mo);
                name = format!("clone_from {:?}", mo);
                b.clone_from(&o);
                m = mo;
            }
            _ => match c.g.idx(4) {
                0 => {
                    name = "clone".into();
                    let o = b.clone();
                    ensure!(o == b, "clone differs");
                    b = o;
                }
                1 => {
                    name = "into_iter".into();
                    ensure_eq!((&b).into_iter().collect::<Vec<u64>>(), m, "(&b).into_iter()");
                    ensure_eq!(b.clone().into_iter().collect::<Vec<u64>>(), m, "into_iter");
                }
                2 => {
                    name = "serde".into();
                    b = bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap();
                }
                _ => {
                    name = "misuse".into();
                    let over = n + c.g.us(0, 9);
                    ensure!(panics(|| b.get(over)).is_err(), "get({}) of {} accepted", over, n);
                    let mut o = b.clone();
                    ensure!(panics(|| o.set(over, 1)).is_err(), "set({}) of {} accepted", over, n);
                    if n == 0 {
                        ensure!(panics(|| o.pop()).is_err(), "pop of an empty array accepted");
                    }
                }
            },
        }
        tr!(c, "{}", name);
        ops += 1;
        agree(&b, w, &m).map_err(|e| format!("after {}: {}", name, e))?;
    }
    c.label_if(64 % w != 0, "elements cross words");
    c.label_if(64 % w == 0, "elements within words");
    c.label_if(w == 64, "whole words");
    if ops >= 3 {
        c.nontrivial();
    }
    Ok(())
}

/// Every width, every position over three words: set, neighbours, overwrite, pop.
fn widths(c: &mut Case) -> R {
    let mut s = Sm::new(c.g.seed());
    for w in 1..=64usize {
        let n = 3 * 64 / w + 2;
        for back in [0, max(w), 0x5555_5555_5555_5555 & max(w)] {
            let mut b = BitstringVec::from_elem(w, n, back);
            let mut m = vec![back; n];
            agree(&b, w, &m).map_err(|e| format!("from_elem at width {}: {}", w, e))?;
            for i in 0..n {
                for v in [max(w), 0, s.next() & max(w), back] {
                    b.set(i, v);
                    m[i] = v;
                    agree(&b, w, &m).map_err(|e| format!("set({}, {}) at width {} over {}: {}", i, v, w, back, e))?;
                }
            }
            while let Some(x) = m.pop() {
                ensure_eq!(b.pop(), x, "pop at width {}", w);
                agree(&b, w, &m).map_err(|e| format!("pop at width {} over {}: {}", w, back, e))?;
                b.push(0);
                m.push(0);
                agree(&b, w, &m).map_err(|e| format!("push(0) after pop at width {} over {}: {}", w, back, e))?;
                b.pop();
                m.pop();
            }
        }
    }
    c.nontrivial();
    Ok(())
}

fn agree_large(b: &BitstringVec, m: &[u64]) -> R {
    ensure_eq!(b.len(), m.len(), "len");
    let mut it = b.iter();
    for (i, &x) in m.iter().enumerate() {
        ensure!(b.get(i) == x, "get({}) of {} is {}, not {}", i, m.len(), b.get(i), x);
        ensure!(it.next() == Some(x), "element {} of {} in the iterator is not {}", i, m.len(), x);
    }
    ensure!(it.next().is_none(), "the iterator goes on beyond {} elements", m.len());
    ensure_eq!(b.occupied_len(), m.iter().filter(|&&x| x != 0).count(), "occupied_len of {} elements", m.len());
    ensure!(b.capacity() >= m.len(), "capacity {} below len {}", b.capacity(), m.len());
    Ok(())
}

/// Arrays of up to millions of elements.
fn large(c: &mut Case) -> R {
    let w = c.g.us(1, 64);
    let most = if c.g.chance(1, 20) { 1 << 21 } else { 1 << 16 };
    let n = c.g.logu(100, most);
    let mut s = Sm::new(c.g.seed());
    let sparse = 1 + c.g.below(4);
    let value = |s: &mut Sm| match s.below(4 * sparse) {
        0 => max(w),
        1 => 1 << s.below(w as u64),
        2 | 3 => s.next() & max(w),
        _ => 0,
    };
    let mut m: Vec<u64> = (0..n).map(|_| value(&mut s)).collect();
    let mut b = BitstringVec::new(w, n);
    m.iter().enumerate().for_each(|(i, &x)| b.set(i, x));
    tr!(c, "{} elements of width {}, sparse {}", n, w, sparse);
    agree_large(&b, &m).map_err(|e| format!("after construction: {}", e))?;
    for _ in 0..c.g.us(1, 8) {
        let n = m.len();
        let at = |s: &mut Sm| {
            let i = s.below(n.max(1) as u64) as usize;
            match s.below(3) {
                0 => n.max(1) - 1 - i % 70.min(n.max(1)),
                1 => i & !63,
                _ => i,
            }
        };
        let name;
        match c.g.idx(6) {
            0 if n > 0 => {
                name = "sets".to_string();
                for _ in 0..1000 {
                    let (i, x) = (at(&mut s), value(&mut s));
                    b.set(i, x);
                    m[i] = x;
                }
            }
            1 => {
                let k = c.g.logu(1, most / 2);
                name = format!("{} pushes", k);
                for _ in 0..k {
                    let x = value(&mut s);
                    b.push(x);
                    m.push(x);
                }
            }
            2 if n > 0 => {
                let k = c.g.logu(1, n);
                name = format!("{} pops", k);
                for i in 0..k {
                    let (x, y) = (b.pop(), m.pop().unwrap());
                    ensure!(x == y, "pop {} of {} is {}, not {}", i, n, x, y);
                }
            }
            3 => {
                let k = at(&mut s);
                name = format!("truncate({}) of {}", k, n);
                b.truncate(k);
                m.truncate(k);
            }
            4 if s.below(3) == 0 => {
                name = "clear".into();
                b.clear();
                m.iter_mut().for_each(|x| *x = 0);
            }
            _ => {
                name = "copies".into();
                let mut o = match s.below(3) {
                    0 => b.clone(),
                    1 => {
                        let k = s.below(2 * n as u64 + 100) as usize;
                        let mut o = BitstringVec::from_elem(w, k, max(w));
                        o.clone_from(&b);
                        o
                    }
                    _ => bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap(),
                };
                ensure!(o == b, "a copy of {} elements differs", n);
                if n > 0 {
                    let i = at(&mut s);
                    o.set(i, m[i] ^ 1 << s.below(w as u64));
                    ensure!(o != b, "equal although element {} of {} differs", i, n);
                    o.set(i, m[i]);
                    ensure!(o == b, "not equal after undoing the change of element {} of {}", i, n);
                    let j = at(&mut s);
                    if m[i] != m[j] {
                        o.set(i, m[j]);
                        o.set(j, m[i]);
                        ensure!(o != b, "equal although elements {} and {} of {} are exchanged", i, j, n);
                        o.set(i, m[i]);
                        o.set(j, m[j]);
                    }
                }
                b = o;
            }
        }
        tr!(c, "{}", name);
        agree_large(&b, &m).map_err(|e| format!("after {}: {}", name, e))?;
    }
    c.label_if(n > 1 << 16, "more than 2^16 elements");
    c.label_if(n > 1 << 20, "more than 2^20 elements");
    c.nontrivial();
    Ok(())
}

/// More than 2^32 bits, looked at in a few places.
fn huge(c: &mut Case) -> R {
    let w = c.g.us(1, 64);
    let n = (1usize << 32) / w + c.g.us(100, 5000);
    let mut b = BitstringVec::new(w, n);
    let mut m: std::collections::BTreeMap<usize, u64> = Default::default();
    let mut s = Sm::new(c.g.seed());
    tr!(c, "{} elements of width {}", n, w);
    let place = |s: &mut Sm| match s.below(4) {
        0 => s.below(n as u64) as usize,
        1 => n - 1 - s.below(70) as usize,
        2 => ((1usize << 32) / w - 50 + s.below(100) as usize).min(n - 1),
        _ => s.below(100) as usize,
    };
    for round in 0..2 {
        for _ in 0..600 {
            let (i, x) = (place(&mut s), if s.below(3) == 0 { 0 } else { s.next() & max(w) });
            b.set(i, x);
            m.insert(i, x);
        }
        ensure_eq!(b.len(), n, "len");
        ensure_eq!(b.occupied_len(), m.values().filter(|&&x| x != 0).count(), "occupied_len in round {}", round);
        for i in m.keys().copied().chain((0..2000).map(|_| place(&mut s))).collect::<Vec<_>>() {
            ensure_eq!(b.get(i), m.get(&i).copied().unwrap_or(0), "get({}) of {} at width {}", i, n, w);
        }
        if round == 0 {
            b.clear();
            m.clear();
        }
    }
    c.nontrivial();
    Ok(())
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "operation sequences over every width 1..64 and up to 150 elements against Vec<u64>, every observer compared after every step, \
               start values and operands produced in six ways; and every position over three words at every width; arrays of up to millions of \
               elements, and of more than 2^32 bits; non-trivial: at least 3 operations (history), every other case",
        assumptions: &["values fit the width (callers mask them)"],
        scenarios: vec![
            Scenario { name: "widths", cases: 8, thorough: 10, f: widths },
            Scenario { name: "history", cases: 120000, thorough: 20, f: history },
            Scenario { name: "large", cases: 5000, thorough: 20, f: large },
            Scenario { name: "huge", cases: 6, thorough: 4, f: huge },
        ],
        known: vec![],
    }
}
