//! C31: BitVec against Vec<bool>.
use engine::*;
use probabilistic_collections::verif_hooks::BitVec;

/// One of several ways to produce an array with the given content.
fn make(c: &mut Case, m: &[bool]) -> BitVec {
    let n = m.len();
    match c.g.idx(9) {
        0 => {
            let mut b = BitVec::new(n);
            for (i, &x) in m.iter().enumerate() {
                b.set(i, x);
            }
            b
        }
        1 => {
            let mut b = BitVec::with_capacity(c.g.us(0, 100));
            for &x in m {
                b.push(x);
            }
            b
        }
        2 => {
            let mut b = BitVec::from_elem(n, true);
            for (i, &x) in m.iter().enumerate() {
                if !x {
                    b.flip(i);
                }
            }
            b
        }
        3 => {
            let mut b = BitVec::from_bytes(&bytes_of(m));
            b.truncate(n);
            b
        }
        4 => {
            // too long, then shortened
            let mut b = BitVec::from_elem(n + c.g.us(1, 20), true);
            for (i, &x) in m.iter().enumerate() {
                b.set(i, x);
            }
            if c.g.chance(1, 2) {
                b.truncate(n);
            } else {
                while b.len() > n {
                    b.pop();
                }
            }
            b
        }
        5 => {
            // the complement, flipped as a whole
            let mut b = BitVec::new(0);
            for &x in m {
                b.push(!x);
            }
            b.flip_all();
            b
        }
        6 => {
            let mut b = BitVec::new(n);
            b.set_all(true);
            let mut o = BitVec::new(n);
            for (i, &x) in m.iter().enumerate() {
                o.set(i, x);
            }
            b.intersection(&o);
            b
        }
        7 => {
            // overwritten by clone_from, over something of another length
            let mut o = BitVec::new(n);
            for (i, &x) in m.iter().enumerate() {
                o.set(i, x);
            }
            let mut b = BitVec::from_elem(c.g.us(0, 40), c.g.chance(1, 2));
            b.clone_from(&o);
            b
        }
        _ => {
            let mut b = BitVec::new(n);
            for (i, &x) in m.iter().enumerate() {
                b.set(i, x);
            }
            bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap()
        }
    }
}

/// First bit of the array = most significant bit of the first byte; the last byte is padded with zeros.
fn bytes_of(m: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (m.len() + 7) / 8];
    for (i, &x) in m.iter().enumerate() {
        if x {
            v[i / 8] |= 128 >> (i % 8);
        }
    }
    v
}

fn agree(b: &BitVec, m: &[bool]) -> R {
    ensure_eq!(b.len(), m.len(), "len");
    ensure_eq!(b.is_empty(), m.is_empty(), "is_empty");
    let ones = m.iter().filter(|&&x| x).count();
    ensure_eq!(b.count_ones(), ones, "count_ones of {} bits", m.len());
    ensure_eq!(b.count_zeros(), m.len() - ones, "count_zeros of {} bits", m.len());
    ensure_eq!(b.iter().collect::<Vec<_>>(), m, "iter");
    for (i, &x) in m.iter().enumerate() {
        ensure_eq!(b.get(i), Some(x), "get({})", i);
        ensure_eq!(b[i], x, "index {}", i);
    }
    for d in [0, 1, 7, 8, 1000] {
        ensure_eq!(b.get(m.len() + d), None, "get({}) beyond the end", m.len() + d);
    }
    ensure_eq!(b.to_bytes(), bytes_of(m), "to_bytes of {} bits", m.len());
    ensure!(b.capacity() >= m.len(), "capacity {} below len {}", b.capacity(), m.len());
    Ok(())
}

fn content(c: &mut Case, n: usize) -> Vec<bool> {
    let d = c.g.us(0, 4);
    (0..n).map(|_| c.g.us(0, 3) < d).collect()
}

fn history(c: &mut Case) -> R {
    let nmax = if c.g.chance(1, 6) { 200 } else { 26 };
    let n = c.g.us(0, nmax);
    let mut m = content(c, n);
    let mut b = make(c, &m);
    tr!(c, "start {:?}", m);
    agree(&b, &m).map_err(|e| format!("after construction: {}", e))?;
    let mut ops = 0;
    while c.g.more(25) {
        let n = m.len();
        let name: String;
        match c.g.weighted(&[4, 4, 3, 1, 2, 2, 2, 3, 2, 2, 2, 3, 2, 1, 2]) {
            0 => {
                if n == 0 {
                    continue;
                }
                let (i, x) = (c.g.idx(n), c.g.chance(1, 2));
                name = format!("set({}, {})", i, x);
                b.set(i, x);
                m[i] = x;
            }
            1 => {
                let k = c.g.us(1, 10);
                name = format!("push x{}", k);
                for _ in 0..k {
                    let x = c.g.chance(1, 2);
                    let cap = b.capacity();
                    b.push(x);
                    m.push(x);
                    ensure!(b.capacity() <= 3 * cap + 600, "capacity {} after one push at capacity {}", b.capacity(), cap);
                }
            }
            2 => {
                let k = c.g.us(1, 10);
                name = format!("pop x{}", k);
                for _ in 0..k {
                    ensure_eq!(b.pop(), m.pop(), "pop");
                }
            }
            3 => {
                let x = c.g.chance(1, 2);
                name = format!("set_all({})", x);
                b.set_all(x);
                for y in &mut m {
                    *y = x;
                }
            }
            4 => {
                if n == 0 {
                    continue;
                }
                let i = c.g.idx(n);
                name = format!("flip({})", i);
                b.flip(i);
                m[i] = !m[i];
            }
            5 => {
                name = "flip_all".into();
                b.flip_all();
                for y in &mut m {
                    *y = !*y;
                }
            }
            k @ 6..=9 => {
                let mo = content(c, n);
                let o = make(c, &mo);
                name = format!("set operation {} with {:?}", k - 6, mo);
                match k {
                    6 => b.union(&o),
                    7 => b.intersection(&o),
                    8 => b.difference(&o),
                    _ => b.symmetric_difference(&o),
                }
                for (x, &y) in m.iter_mut().zip(&mo) {
                    *x = match k {
                        6 => *x || y,
                        7 => *x && y,
                        8 => *x && !y,
                        _ => *x != y,
                    };
                }
                agree(&o, &mo).map_err(|e| format!("operand changed: {}", e))?;
            }
            10 => {
                let k = c.g.us(0, n + 3);
                name = format!("truncate({})", k);
                b.truncate(k);
                m.truncate(k);
            }
            11 => {
                // equality is that of the contents, whatever the histories
                let mut mo = m.clone();
                let change = c.g.idx(3);
                if change == 1 && n > 0 {
                    let i = c.g.idx(n);
                    mo[i] = !mo[i];
                }
                if change == 2 {
                    mo.push(false);
                }
                let o = make(c, &mo);
                name = format!("compare with {:?}", mo);
                ensure_eq!(b == o, m == mo, "equality of {:?} and {:?}", m, mo);
                ensure_eq!(o == b, m == mo, "equality of {:?} and {:?}, other way", m, mo);
            }
            12 => {
                let n2 = c.g.us(0, 40);
                let mo = content(c, n2);
                let o = make(c, &mo);
                name = format!("clone_from {:?}", mo);
                b.clone_from(&o);
                agree(&o, &mo).map_err(|e| format!("clone_from changed its source: {}", e))?;
                m = mo;
            }
            13 => {
                let k = c.g.us(0, 100);
                name = format!("reserve {}", k);
                if c.g.chance(1, 2) {
                    b.reserve(k);
                } else {
                    b.reserve_exact(k);
                }
                ensure!(b.capacity() >= n + k, "capacity {} after reserving {} over {}", b.capacity(), k, n);
            }
            _ => match c.g.idx(5) {
                0 => {
                    name = "clone".into();
                    let o = b.clone();
                    ensure!(o == b, "clone differs");
                    b = o;
                }
                1 => {
                    name = "into_iter".into();
                    ensure_eq!((&b).into_iter().collect::<Vec<bool>>(), m, "(&b).into_iter()");
                    ensure_eq!(b.clone().into_iter().collect::<Vec<bool>>(), m, "into_iter");
                }
                2 => {
                    name = "serde".into();
                    b = bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap();
                }
                3 => {
                    name = "bytes".into();
                    let bytes = b.to_bytes();
                    let mut o = BitVec::from_bytes(&bytes);
                    ensure_eq!(o.to_bytes(), bytes, "from_bytes then to_bytes");
                    o.truncate(n);
                    ensure!(o == b, "rebuilt from its bytes: {:?} vs {:?}", o, b);
                }
                _ => {
                    name = "misuse".into();
                    let over = n + c.g.us(0, 9);
                    let mut o = b.clone();
                    ensure!(panics(|| o.set(over, true)).is_err(), "set({}) of {} bits accepted", over, n);
                    ensure!(panics(|| o.flip(over)).is_err(), "flip({}) of {} bits accepted", over, n);
                    ensure!(panics(|| b[over]).is_err(), "index {} of {} bits accepted", over, n);
                    let other = BitVec::new(over + 1);
                    for k in 0..4 {
                        let mut o = b.clone();
                        let r = panics(|| match k {
                            0 => o.union(&other),
                            1 => o.intersection(&other),
                            2 => o.difference(&other),
                            _ => o.symmetric_difference(&other),
                        });
                        ensure!(r.is_err(), "set operation between {} and {} bits accepted", n, over + 1);
                    }
                }
            },
        }
        tr!(c, "{}", name);
        ops += 1;
        agree(&b, &m).map_err(|e| format!("after {}: {}", name, e))?;
    }
    c.label_if(m.len() % 8 == 0, "whole bytes");
    c.label_if(m.len() % 8 != 0, "partial byte");
    if ops >= 3 {
        c.nontrivial();
    }
    Ok(())
}

fn bytes(c: &mut Case) -> R {
    let n = c.g.us(0, 40);
    let v: Vec<u8> = (0..n).map(|_| c.g.upto(255) as u8).collect();
    let m: Vec<bool> = v.iter().flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1)).collect();
    let mut b = BitVec::from_bytes(&v);
    tr!(c, "{:?}", v);
    agree(&b, &m)?;
    if n > 0 {
        c.nontrivial();
    }
    b.flip_all();
    ensure_eq!(b.to_bytes(), v.iter().map(|x| !x).collect::<Vec<u8>>(), "flipped bytes");
    Ok(())
}

/// Every content of up to six bits and its neighbourhood, all operations.
fn small(c: &mut Case) -> R {
    let make = |n: usize, x: u32| {
        let m: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect();
        let mut b = BitVec::new(n);
        m.iter().enumerate().for_each(|(i, &v)| b.set(i, v));
        (b, m)
    };
    for n in [0usize, 1, 2, 3, 7, 8, 9, 10] {
        for x in 0..1u32 << n.min(9) {
            for y in [0u32, 1, 5, 0x155, 0x2aa, 0x3ff, x ^ 1, !x] {
                for k in 0..4 {
                    let (mut b, m) = make(n, x);
                    let (o, mo) = make(n, y);
                    match k {
                        0 => b.union(&o),
                        1 => b.intersection(&o),
                        2 => b.difference(&o),
                        _ => b.symmetric_difference(&o),
                    }
                    let r: Vec<bool> = m
                        .iter()
                        .zip(&mo)
                        .map(|(&p, &q)| match k {
                            0 => p | q,
                            1 => p & q,
                            2 => p & !q,
                            _ => p ^ q,
                        })
                        .collect();
                    agree(&b, &r).map_err(|e| format!("set operation {} on {:?} and {:?}: {}", k, m, mo, e))?;
                }
            }
            for t in 0..=n {
                let (mut b, mut m) = make(n, x);
                b.truncate(t);
                m.truncate(t);
                agree(&b, &m).map_err(|e| format!("truncate({}) of {} bits {:#x}: {}", t, n, x, e))?;
                b.push(true);
                m.push(true);
                b.push(false);
                m.push(false);
                agree(&b, &m).map_err(|e| format!("pushes after truncate({}) of {} bits {:#x}: {}", t, n, x, e))?;
            }
            let (mut b, mut m) = make(n, x);
            b.flip_all();
            m.iter_mut().for_each(|v| *v = !*v);
            agree(&b, &m).map_err(|e| format!("flip_all of {} bits {:#x}: {}", n, x, e))?;
            b.push(false);
            m.push(false);
            agree(&b, &m).map_err(|e| format!("push after flip_all of {} bits {:#x}: {}", n, x, e))?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn agree_large(b: &BitVec, m: &[bool]) -> R {
    ensure_eq!(b.len(), m.len(), "len");
    let ones = m.iter().filter(|&&x| x).count();
    ensure_eq!(b.count_ones(), ones, "count_ones of {} bits", m.len());
    ensure_eq!(b.count_zeros(), m.len() - ones, "count_zeros of {} bits", m.len());
    let mut it = b.iter();
    for (i, &x) in m.iter().enumerate() {
        ensure!(it.next() == Some(x), "bit {} of {} in the iterator is not {}", i, m.len(), x);
        ensure!(b.get(i) == Some(x), "get({}) of {} bits is not {}", i, m.len(), x);
    }
    ensure!(it.next().is_none(), "the iterator goes on beyond {} bits", m.len());
    ensure_eq!(b.get(m.len()), None, "get beyond the end");
    ensure!(b.capacity() >= m.len(), "capacity {} below len {}", b.capacity(), m.len());
    Ok(())
}

/// Arrays of up to millions of bits; every operation at a random or an aligned position.
fn large(c: &mut Case) -> R {
    let most = if c.g.chance(1, 20) { 1 << 22 } else { 1 << 18 };
    let n = c.g.logu(100, most);
    let mut s = Sm::new(c.g.seed());
    let density = c.g.idx(4);
    let fill = |s: &mut Sm, n: usize| -> Vec<bool> {
        (0..n)
            .map(|_| match density {
                0 => s.below(2) == 0,
                1 => s.below(1000) == 0,
                2 => s.below(1000) != 0,
                _ => s.below(8) == 0,
            })
            .collect()
    };
    let mut m = fill(&mut s, n);
    let from = |m: &[bool]| {
        let mut b = BitVec::new(m.len());
        m.iter().enumerate().for_each(|(i, &x)| {
            if x {
                b.set(i, true)
            }
        });
        b
    };
    let mut b = from(&m);
    tr!(c, "{} bits of density class {}", n, density);
    agree_large(&b, &m).map_err(|e| format!("after construction: {}", e))?;
    for _ in 0..c.g.us(1, 8) {
        let n = m.len();
        let at = |s: &mut Sm| {
            let i = s.below(n.max(1) as u64) as usize;
            match s.below(4) {
                0 => i & !63,
                1 => (i | 63).min(n.max(1) - 1),
                2 => n.max(1) - 1 - i % 70.min(n.max(1)),
                _ => i,
            }
        };
        let name;
        match c.g.idx(13) {
            0 if n > 0 => {
                name = "sets".to_string();
                for _ in 0..1000 {
                    let (i, x) = (at(&mut s), s.below(2) == 0);
                    b.set(i, x);
                    m[i] = x;
                }
            }
            1 if n > 0 => {
                name = "flips".to_string();
                for _ in 0..1000 {
                    let i = at(&mut s);
                    b.flip(i);
                    m[i] = !m[i];
                }
            }
            2 => {
                let k = c.g.logu(1, most / 2);
                name = format!("{} pushes", k);
                for _ in 0..k {
                    let x = s.below(2) == 0;
                    b.push(x);
                    m.push(x);
                }
            }
            3 => {
                let k = c.g.logu(1, n + 10);
                name = format!("{} pops", k);
                for i in 0..k {
                    ensure_eq!(b.pop(), m.pop(), "pop {} of {}", i, n);
                }
            }
            4 => {
                let k = at(&mut s);
                name = format!("truncate({}) of {}", k, n);
                b.truncate(k);
                m.truncate(k);
            }
            5 => {
                name = "flip_all".into();
                b.flip_all();
                m.iter_mut().for_each(|x| *x = !*x);
            }
            k @ 6..=9 => {
                let mo = fill(&mut s, n);
                let o = from(&mo);
                name = format!("set operation {}", k - 6);
                match k {
                    6 => b.union(&o),
                    7 => b.intersection(&o),
                    8 => b.difference(&o),
                    _ => b.symmetric_difference(&o),
                }
                for (x, &y) in m.iter_mut().zip(&mo) {
                    *x = match k {
                        6 => *x | y,
                        7 => *x & y,
                        8 => *x & !y,
                        _ => *x ^ y,
                    };
                }
            }
            10 => {
                name = "bytes".into();
                let bytes = b.to_bytes();
                ensure!(bytes == bytes_of(&m), "to_bytes of {} bits", n);
                let mut o = BitVec::from_bytes(&bytes);
                o.truncate(n);
                ensure!(o == b, "{} bits rebuilt from their bytes differ", n);
                b = o;
            }
            11 => {
                let x = s.below(2) == 0;
                name = format!("set_all({})", x);
                b.set_all(x);
                m.iter_mut().for_each(|y| *y = x);
            }
            _ => {
                name = "copies".into();
                let mut o = match s.below(3) {
                    0 => b.clone(),
                    1 => {
                        let k = s.below(2 * n as u64 + 100) as usize;
                        let mut o = BitVec::from_elem(k, true);
                        o.clone_from(&b);
                        o
                    }
                    _ => bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap(),
                };
                ensure!(o == b, "a copy of {} bits differs", n);
                if n > 0 {
                    // one bit off, or as many ones elsewhere
                    let i = at(&mut s);
                    o.flip(i);
                    ensure!(o != b, "equal although bit {} of {} differs", i, n);
                    if let Some(j) = (0..200).map(|_| at(&mut s)).find(|&j| m[j] != m[i]) {
                        o.flip(j);
                        ensure!(o != b, "equal although bits {} and {} of {} are exchanged", i, j, n);
                        o.flip(j);
                    }
                    o.flip(i);
                    ensure!(o == b, "not equal after undoing the flips of {} bits", n);
                }
                b = o;
            }
        }
        tr!(c, "{}", name);
        agree_large(&b, &m).map_err(|e| format!("after {}: {}", name, e))?;
    }
    c.label_if(n > 1 << 16, "more than 2^16 bits");
    c.label_if(n > 1 << 20, "more than 2^20 bits");
    c.nontrivial();
    Ok(())
}

/// More than 2^32 bits, looked at in a few places.
fn huge(c: &mut Case) -> R {
    let n = (1usize << 32) + c.g.us(0, 100_000);
    let mut b = BitVec::new(n);
    let mut ones: std::collections::BTreeSet<usize> = Default::default();
    let mut s = Sm::new(c.g.seed());
    tr!(c, "{} bits", n);
    let place = |s: &mut Sm, n: usize| match s.below(4) {
        0 => s.below(n as u64) as usize,
        1 => n - 1 - s.below(70) as usize,
        2 => ((1usize << 32) - 64 + s.below(128) as usize).min(n - 1),
        _ => s.below(100) as usize,
    };
    for _ in 0..400 {
        let i = place(&mut s, n);
        match s.below(3) {
            0 => {
                b.set(i, true);
                ones.insert(i);
            }
            1 => {
                b.set(i, false);
                ones.remove(&i);
            }
            _ => {
                b.flip(i);
                if !ones.remove(&i) {
                    ones.insert(i);
                }
            }
        }
    }
    let mut inverted = false;
    let mut n = n;
    for round in 0..3 {
        ensure_eq!(b.len(), n, "len in round {}", round);
        let k = if inverted { n - ones.len() } else { ones.len() };
        ensure_eq!(b.count_ones(), k, "count_ones of {} bits in round {}", n, round);
        ensure_eq!(b.count_zeros(), n - k, "count_zeros of {} bits in round {}", n, round);
        for i in ones.iter().copied().chain((0..2000).map(|_| place(&mut s, n))).collect::<Vec<_>>() {
            ensure_eq!(b.get(i), Some(ones.contains(&i) != inverted), "get({}) of {} bits in round {}", i, n, round);
        }
        ensure_eq!(b.get(n), None, "get beyond the end");
        match round {
            0 => {
                b.flip_all();
                inverted = true;
            }
            _ => {
                n -= c.g.us(1, 100);
                b.truncate(n);
                ones = ones.into_iter().filter(|&i| i < n).collect();
                for _ in 0..c.g.us(0, 20) {
                    let x = s.below(2) == 0;
                    b.push(x);
                    if x != inverted {
                        ones.insert(n);
                    }
                    n += 1;
                }
            }
        }
    }
    c.nontrivial();
    Ok(())
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "operation sequences over 0..200 bits against Vec<bool>, every observer compared after every step, operands and start values \
               produced in nine ways; all contents of up to ten bits under set operations, truncation and flips; arrays of up to millions of \
               bits, and of more than 2^32; non-trivial: at least 3 operations (history), at least a byte (bytes), every other case",
        assumptions: &["lengths far below usize::MAX"],
        scenarios: vec![
            Scenario { name: "small", cases: 1, thorough: 1, f: small },
            Scenario { name: "history", cases: 120000, thorough: 20, f: history },
            Scenario { name: "bytes", cases: 60000, thorough: 20, f: bytes },
            Scenario { name: "large", cases: 5000, thorough: 20, f: large },
            Scenario { name: "huge", cases: 6, thorough: 4, f: huge },
        ],
        known: vec![],
    }
}
