//! Families of cases. A family is a finite, totally enumerated space: case i for every i below n.
use crate::case::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub enum Exec {
    Map,
    Owned,
    Heap,
}
pub struct Fam {
    pub name: String,
    pub what: String,
    pub n: u64,
    pub exec: Exec,
    pub f: Box<dyn Fn(u64) -> Case>,
}

pub fn k8(n: u64) -> K {
    n.to_be_bytes().to_vec()
}
fn cat(a: &[u8], b: &[u8]) -> K {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
fn rep(b: u8, n: usize) -> K {
    vec![b; n]
}
fn no() -> Rc<Vec<K>> {
    Rc::new(vec![])
}

/// Small sets of keys that are easily confused with one another.
pub fn alphabets(size: usize) -> Vec<(&'static str, Vec<K>)> {
    let p = b"abcdefgh";
    let q = b"ijklmnop";
    let pq = cat(p, q);
    let mut v: Vec<(&'static str, Vec<K>)> = vec![
        ("zeros", [0, 1, 2, 7, 8, 9, 16, 17, 15, 24].map(|n| rep(0, n)).to_vec()),
        ("prefix", vec![p.to_vec(), cat(p, b"a"), cat(p, b"\0"), pq.clone(), cat(&pq, b"q"), cat(&pq, b"r"), cat(p, b"ijklmno"), cat(&pq, q), cat(p, b"b"), cat(&pq, &cat(q, b"z"))]),
        ("ff", vec![rep(0xff, 7), rep(0xff, 8), rep(0xff, 9), rep(0xff, 16), rep(0xff, 17), vec![], cat(&rep(0xff, 7), b"\xfe"), cat(&rep(0xff, 8), b"\xfe"), rep(0xff, 6), rep(0xff, 24)]),
        ("chain", vec![rep(b'x', 8), rep(b'x', 16), rep(b'x', 24), rep(b'x', 32), rep(b'x', 40), cat(&rep(b'x', 32), b"y"), rep(b'x', 33), cat(&rep(b'x', 24), b"yxxxxxxxx"), rep(b'x', 48), rep(b'x', 256)]),
        ("short", (1..=10).map(|n| b"abcdefghij"[..n].to_vec()).collect()),
        ("dense", [0u64, 1, 2, 255, 256, 1 << 63, u64::MAX, (1 << 63) - 1, 257, u64::MAX - 1].map(k8).to_vec()),
        ("suffixes", (0..10).map(|i| cat(&[b'a' + i as u8; 8], &rep(b'0' + i as u8, 1 + 31 * (i % 9)))).collect()),
        ("onebag", vec![cat(b"k1______", b"s"), cat(b"k2______", &rep(b'm', 200)), cat(b"k3______", b"tt"), cat(b"k4______", &rep(b'n', 100)), cat(b"k2______", &rep(b'm', 199)), cat(b"k1______", b"t"), cat(b"k5______", &rep(b'o', 248)), cat(b"k6______", b"u"), cat(b"k5______", &rep(b'o', 247)), b"k1______".to_vec()]),
        ("mixlen", vec![b"m".to_vec(), b"m\0".to_vec(), b"m\0\0\0\0\0\0\0".to_vec(), b"m\0\0\0\0\0\0\0\0".to_vec(), b"m\0\0\0\0\0\0\0\x01".to_vec(), b"m\0\0\0\0\0\0\x01".to_vec(), b"l\xff\xff\xff\xff\xff\xff\xff".to_vec(), b"m\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(), b"n".to_vec(), b"m\0\0".to_vec()]),
        ("sametail", (0..10).map(|i| cat(&k8(i * 3 + 100), b"the same tail everywhere")).collect()),
        ("longtwins", (0..10).map(|i| { let mut k = rep(b'L', 200); k[[0, 7, 8, 15, 16, 100, 191, 192, 198, 199][i]] = b'M'; k }).collect()),
        ("signed", vec![vec![0x7f], vec![0x80], vec![0x7f, 0xff], vec![0x80, 0], vec![0xff], vec![0x80, 0, 0, 0, 0, 0, 0, 0], vec![0x7f; 8], vec![0x80; 9], vec![0x80; 8], vec![1]]),
    ];
    for (n, a) in &mut v {
        a.truncate(size);
        let mut d = a.clone();
        d.sort();
        d.dedup();
        assert_eq!(d.len(), a.len(), "{n}");
    }
    v
}

/// Keys near the given ones: one byte more, less, different.
pub fn near(a: &[K]) -> Vec<K> {
    let mut v: Vec<K> = Vec::new();
    let add = |k: K, v: &mut Vec<K>| {
        if k.len() <= 256 && !a.contains(&k) && !v.contains(&k) {
            v.push(k)
        }
    };
    for k in a {
        add(cat(k, b"\0"), &mut v);
        add(cat(k, b"\xff"), &mut v);
        add(cat(k, b"12345678"), &mut v);
        if let Some((l, h)) = k.split_last() {
            add(h.to_vec(), &mut v);
            add(cat(h, &[l.wrapping_add(1)]), &mut v);
            add(cat(h, &[l.wrapping_sub(1)]), &mut v);
        }
        if k.len() >= 8 {
            add(k[..8].to_vec(), &mut v);
            add(cat(&k[..8], b"Z"), &mut v);
            let mut m = k.clone();
            m[7] ^= 1;
            add(m, &mut v);
        }
    }
    v
}
fn spaced(n: u64, lo: u64, tail: &[u8]) -> Vec<K> {
    let s = (u64::MAX - lo) / (n + 1);
    (1..=n).map(|i| cat(&k8(lo + i * s), tail)).collect()
}
/// Starting maps for an alphabet.
pub fn starts(a: &[K], big: bool) -> Vec<Vec<K>> {
    let pool = near(a);
    let take = |n: usize| -> Vec<K> {
        let mut v: Vec<K> = pool.iter().take(n).cloned().collect();
        let mut i = 1u64;
        while v.len() < n {
            let k = k8(i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
            if !a.contains(&k) && !v.contains(&k) {
                v.push(k)
            }
            i += 1;
        }
        v
    };
    let pre: K = a.iter().filter(|k| k.len() >= 8).map(|k| k[..8].to_vec()).next().unwrap_or_else(|| {
        let mut k = a[a.len() / 2].clone();
        k.resize(8, 0);
        k
    });
    let sub = |n: u64| -> Vec<K> { (1..=n).map(|i| cat(&pre, &cat(&k8(i * 0x0700_0000_0000_0000), b""))).filter(|k| !a.contains(k)).collect() };
    let mut v = vec![vec![], take(5), take(20), take(40), spaced(23, 0, b""), spaced(24, 0, b""), spaced(24, 0, b"tail"), sub(23), sub(24), {
        let mut x = sub(24);
        x.extend(spaced(23, 0, b""));
        x
    }];
    // everything below / above the alphabet
    let mn = a.iter().filter(|k| !k.is_empty()).min().unwrap().clone();
    let mx = a.iter().max().unwrap().clone();
    v.push((0..24u8).map(|i| if mn[0] > 0 { vec![mn[0] - 1, i] } else { vec![0, 0, 0, 0, 0, 0, 0, i + 1] }).filter(|k| !a.contains(k)).collect());
    v.push((0..24u8).map(|i| if mx[0] < 0xff { vec![mx[0] + 1, i] } else { cat(&[0xff; 6], &[0xf0, i]) }).filter(|k| !a.contains(k)).collect());
    if big {
        v.push(take(130));
        v.push(spaced(210, 0, b""));
        v.push({
            let mut x = take(60);
            x.extend(sub(30));
            x.reverse();
            x
        });
    }
    v
}

/// All insert sequences of length `depth` over an alphabet of 8 keys, from every start.
pub fn sequences(depth: u32, size: usize, kinds: &'static [u8], api: u8, big: bool) -> Fam {
    let mut base: Vec<(Rc<Vec<K>>, Rc<Vec<K>>, Rc<Vec<K>>)> = Vec::new();
    for (_, a) in alphabets(size) {
        let nr = Rc::new(near(&a).into_iter().step_by(5).collect::<Vec<_>>());
        let a = Rc::new(a);
        for s in starts(&a, big) {
            base.push((a.clone(), Rc::new(s), nr.clone()));
        }
    }
    let per = (size as u64).pow(depth);
    let nb = base.len() as u64;
    Fam {
        name: format!("sequences-{depth}-{size}-{}-{api}{}", kinds.len(), if big { "b" } else { "" }),
        what: format!("all {per} insert sequences of length {depth} over each of 12 alphabets of {size} keys from {} starting maps, on {} map types, everything read after every operation", nb / 12, kinds.len()),
        n: per * nb * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = kinds[(i / (per * nb)) as usize];
            let r = i % (per * nb);
            let (a, s, nr) = &base[(r / per) as usize];
            let mut c = r % per;
            let mut ops = Vec::new();
            for _ in 0..depth {
                ops.push(Op::Ins(a[(c % size as u64) as usize].clone()));
                c /= size as u64;
            }
            Case { kind, api, start: s.clone(), ops, step: a.clone(), end: nr.clone(), all: false }
        }),
    }
}

fn nth_perm(mut i: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut f: u64 = (1..n as u64).product();
    let mut v = Vec::new();
    for j in (0..n).rev() {
        let q = (i / f) as usize;
        v.push(pool.remove(q));
        i %= f;
        if j > 0 {
            f /= j as u64;
        }
    }
    v
}

/// Every order of every alphabet.
pub fn orders(size: usize, kinds: &'static [u8]) -> Fam {
    let mut base = Vec::new();
    for (_, a) in alphabets(size) {
        let nr = Rc::new(near(&a));
        let st = starts(&a, false);
        let a = Rc::new(a);
        for s in [0, 2, 5] {
            base.push((a.clone(), Rc::new(st[s].clone()), nr.clone()));
        }
    }
    let per: u64 = (1..=size as u64).product();
    let nb = base.len() as u64;
    Fam {
        name: format!("orders-{size}-{}", kinds.len()),
        what: format!("all {per} insertion orders of each of 12 alphabets of {size} keys from 3 starting maps, on {} map types", kinds.len()),
        n: per * nb * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = kinds[(i / (per * nb)) as usize];
            let r = i % (per * nb);
            let (a, s, nr) = &base[(r / per) as usize];
            let ops = nth_perm(r % per, size).into_iter().map(|j| Op::Ins(a[j].clone())).collect();
            Case { kind, api: 0, start: s.clone(), ops, step: no(), end: nr.clone(), all: false }
        }),
    }
}

/// A universe of keys: every length around the slice boundaries, several fills, one-byte changes everywhere.
pub fn universe(lim: usize) -> Vec<K> {
    let mut v: Vec<K> = Vec::new();
    for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33] {
        for f in [0u8, 1, b'a', 0x7f, 0x80, 0xff] {
            v.push(rep(f, n));
        }
    }
    for n in [1usize, 4, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25] {
        for p in 0..n {
            for f in [0u8, b'a', 0xff] {
                for d in [1u8, 0x80] {
                    let mut k = rep(f, n);
                    k[p] = k[p].wrapping_add(d);
                    v.push(k);
                }
            }
        }
    }
    for n in [1usize, 8, 9, 16, 17, 24] {
        for t in [0u8, 1, 0xff] {
            v.push(cat(&rep(b'a', n), &[t]));
            v.push(cat(&rep(b'a', n), &[t, t]));
        }
    }
    let mut out = Vec::new();
    for k in v {
        if !out.contains(&k) {
            out.push(k)
        }
    }
    if lim < out.len() {
        // spread the choice over the whole list
        let l = out.len();
        out = (0..lim).map(|i| out[i * l / lim].clone()).collect();
    }
    out
}

/// All ordered pairs (triples): insert, and look at all of them after every insert.
pub fn tuples(lim: usize, arity: u32, kind: u8) -> Fam {
    let u = universe(lim);
    let m = u.len() as u64;
    Fam {
        name: format!("tuples-{arity}-{lim}-{kind}"),
        what: format!("all ordered {} of {m} keys (every length around slice boundaries, six fills, one-byte changes at every position)", if arity == 2 { "pairs" } else { "triples" }),
        n: m.pow(arity),
        exec: Exec::Map,
        f: Box::new(move |mut i| {
            let mut ks = Vec::new();
            for _ in 0..arity {
                ks.push(u[(i % m) as usize].clone());
                i /= m;
            }
            Case { kind, api: 0, start: no(), ops: ks.iter().cloned().map(Op::Ins).collect(), step: Rc::new(ks), end: no(), all: false }
        }),
    }
}

/// Keys that are prefixes of one another: all pairs of lengths.
pub fn lengths() -> Fam {
    let fills = [0u8, b'a', 0xff];
    Fam {
        name: "lengths".into(),
        what: "all ordered pairs of lengths 0..=256 with three fill bytes (each key a prefix of the other)".into(),
        n: 257 * 257 * 3,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let f = fills[(i / (257 * 257)) as usize];
            let r = (i % (257 * 257)) as usize;
            let ks = vec![rep(f, r / 257), rep(f, r % 257)];
            Case { kind: 0, api: 0, start: no(), ops: ks.iter().cloned().map(Op::Ins).collect(), step: Rc::new(ks), end: no(), all: false }
        }),
    }
}
/// Two keys of every length differing in exactly one byte, at every position.
pub fn onebyte(kind: u8) -> Fam {
    let mut idx: Vec<(u16, u16)> = Vec::new();
    for n in 1..=256u16 {
        for p in 0..n {
            idx.push((n, p));
        }
    }
    let m = idx.len() as u64;
    Fam {
        name: format!("onebyte-{kind}"),
        what: "for every length 1..=256, every position and four fills: two keys that differ in that byte only".into(),
        n: m * 4,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let (f, d) = [(0u8, 1u8), (b'a', 0xff), (0xff, 1), (0x80, 0x80)][(i / m) as usize];
            let (n, p) = idx[(i % m) as usize];
            let a = rep(f, n as usize);
            let mut b = a.clone();
            b[p as usize] = b[p as usize].wrapping_add(d);
            // also absent relatives
            let absent = vec![a[..a.len() - 1].to_vec(), b[..b.len() - 1].to_vec()].into_iter().filter(|k| *k != a && *k != b).collect::<Vec<_>>();
            Case { kind, api: 0, start: no(), ops: vec![Op::Ins(a.clone()), Op::Ins(b.clone()), Op::Ins(a.clone())], step: Rc::new(vec![a, b]), end: Rc::new(absent), all: false }
        }),
    }
}
/// All 257 lengths in one map, in several orders.
pub fn alllengths() -> Fam {
    Fam {
        name: "alllengths".into(),
        what: "all 257 key lengths of one fill byte together in one map, 16 fill bytes, 8 insertion orders, 2 map types".into(),
        n: 16 * 8 * 2,
        exec: Exec::Map,
        f: Box::new(|i| {
            let f = [0u8, 1, 2, b'0', b'a', b'z', 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0x55, 0xfc, 0xfd, 0xfe, 0xff][(i % 16) as usize];
            let o = order((i / 16 % 8) as usize, 257);
            let ks: Vec<K> = o.into_iter().map(|n| rep(f, n as usize)).collect();
            Case { kind: (i / 128) as u8, api: 0, start: no(), ops: ks.into_iter().map(Op::Ins).collect(), step: no(), end: no(), all: true }
        }),
    }
}

/// Orders in which to insert n things.
pub const ORDERS: usize = 8;
pub fn order(o: usize, n: u64) -> Vec<u64> {
    let bits = 64 - (n.max(2) - 1).leading_zeros();
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }).filter(|&x| x < n).collect(),
        3 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        4 => (0..1u64 << bits).map(|i| i.reverse_bits() >> (64 - bits)).filter(|&i| i < n).collect(),
        5 => (0..7).flat_map(|r| (0..n).filter(move |i| i % 7 == r)).collect(),
        6 => {
            let mut v: Vec<u64> = (0..n).filter(|i| i % 13 == 0).collect();
            v.extend((0..n).rev().filter(|i| i % 13 != 0));
            v
        }
        _ => {
            let (mut x, mut v) = (12345u64, (0..n).collect::<Vec<_>>());
            for i in (1..n as usize).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.swap(i, (x >> 33) as usize % (i + 1));
            }
            v
        }
    }
}
pub const SHAPES: usize = 13;
/// Different ways of writing number i as a key.
pub fn shape(s: usize, i: u64) -> K {
    match s {
        0 => k8(i * 4),
        1 => i.to_le_bytes().to_vec(),
        2 => format!("{i}").into_bytes(),
        3 => format!("key{i:013}").into_bytes(),
        4 => format!("user:{:04}:item:{:06}", i % 37, i).into_bytes(),
        5 => cat(&k8(i / 30), &k8(i)),
        6 => cat(b"samepref", &k8(i)),
        7 => {
            let mut k = rep(b'd', 8 * (i % 12) as usize);
            k.extend_from_slice(&(i as u32).to_be_bytes());
            k
        }
        8 => cat(&k8(i), &rep(b's', (i * 7 % 60) as usize)),
        9 => {
            // groups of equal slices: all lengths of a zero-padded slice
            let mut k = k8((i / 9 + 1) << 32)[..4].to_vec();
            k.resize(4 + (i % 9).min(4) as usize, 0);
            if i % 9 > 4 {
                k.resize(8, 0);
                k.resize(8 + (i % 9 - 4) as usize, b'z');
            }
            k
        }
        10 => cat(&cat(&k8(i % 3), b"middle__"), &k8(i * i)),
        // long suffixes, no two alike: a leaf of them outgrows every buffer
        11 => cat(&k8(i * 4), &(0..245).map(|j| (i * 31 + j) as u8).collect::<Vec<_>>()),
        _ => cat(&cat(b"sublayer", &k8(i)), &(0..i * 101 % 240).map(|j| (i * 37 + j * 3) as u8).collect::<Vec<_>>()),
    }
}
/// Growth from nothing.
pub fn growth(sizes: &'static [u64], kinds: &'static [u8], name: &str) -> Fam {
    let per = (sizes.len() * ORDERS * SHAPES) as u64;
    Fam {
        name: format!("growth-{name}"),
        what: format!("maps grown to {} sizes (largest {}) in 8 insertion orders with 13 key shapes, {} map types, complete read-back with absent neighbours", sizes.len(), sizes.iter().max().unwrap(), kinds.len()),
        n: per * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = kinds[(i / per) as usize];
            let r = (i % per) as usize;
            let n = sizes[r / (ORDERS * SHAPES)];
            let sh = r % SHAPES;
            let ks: Vec<K> = order(r / SHAPES % ORDERS, n).into_iter().map(|j| shape(sh, j)).collect();
            let mut end = Vec::new();
            for (j, k) in ks.iter().enumerate() {
                if j % 8 == 0 {
                    let mut x = k.clone();
                    x.push(1);
                    end.push(x);
                    end.push(k[..k.len().saturating_sub(1)].to_vec());
                }
            }
            Case { kind, api: 0, start: Rc::new(ks), ops: vec![], step: no(), end: Rc::new(end), all: false }
        }),
    }
}

/// `n` ascending keys leave leaves of 12; leaf j is filled to 24, then one more key goes into every gap.
pub fn gaps(sizes: &'static [u64], every: u64) -> Fam {
    // (n, leaf, gap, shape of key)
    let mut idx: Vec<(u64, u64, u64)> = Vec::new();
    for &n in sizes {
        let leaves = (n / 12).max(1);
        for j in (0..leaves).filter(|j| leaves <= 30 || j % every == 0 || *j + 1 == leaves) {
            for g in 0..25 {
                idx.push((n, j, g));
            }
        }
    }
    let m = idx.len() as u64;
    Fam {
        name: format!("gaps-{}-{}", sizes.iter().max().unwrap(), sizes.len()),
        what: format!("maps of {} ascending keys: every leaf{} filled to 24 keys and split by a key in each of its 25 gaps, for 5 kinds of keys and 2 map types", sizes.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("/"), if every > 1 { format!(" ({every}th leaf in the large ones)") } else { String::new() }),
        n: m * 10,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let (n, j, g) = idx[(i % m) as usize];
            let t = i / m % 5;
            let kind = (i / m / 5) as u8;
            let mk = |x: u64| -> K {
                match t {
                    0 => k8(x),
                    1 => cat(&k8(x), b"with a suffix"),
                    2 => cat(b"sublayer", &k8(x)),
                    3 => cat(b"sublayerdeeper__", &cat(&k8(x), b"sfx")),
                    _ => {
                        // short keys: the value without trailing zero bytes
                        let mut k = k8(x << 24);
                        while k.last() == Some(&0) {
                            k.pop();
                        }
                        k
                    }
                }
            };
            let mut st: Vec<K> = (1..=n).map(|x| mk(x * 1000)).collect();
            st.extend((1..=12).map(|x| mk((12 * j + x) * 1000 + 500)));
            let w = mk((12 * j + 1) * 1000 + g * 500 - 250);
            let mut end = Vec::new();
            for g2 in 0..26 {
                end.push(mk((12 * j + 1) * 1000 + g2 * 500 - 125));
            }
            Case { kind, api: 0, start: Rc::new(st), ops: vec![Op::Ins(w.clone()), Op::Ins(w)], step: no(), end: Rc::new(end), all: true }
        }),
    }
}

/// Leaves that contain groups of keys with the same slice: all group sizes, places, and split points.
pub fn groups(kinds: &'static [u8]) -> Fam {
    let mut idx: Vec<(u8, u8, u8, u8)> = Vec::new(); // group size, keys before, gap, order
    for g in 1..=10u8 {
        for before in 0..=(24 - g) {
            for gap in 0..=24u8 {
                for o in 0..4u8 {
                    idx.push((g, before, gap, o));
                }
            }
        }
    }
    let m = idx.len() as u64;
    Fam {
        name: format!("groups-{}", kinds.len()),
        what: "full leaves holding a group of 1..10 keys that share their 8-byte slice, at every place in the leaf, split by a key in every gap, 4 build orders, in the main tree and in a sub-layer".into(),
        n: m * 2 * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let (g, before, gap, o) = idx[(i % m) as usize];
            let sub = i / m % 2 == 1;
            let kind = kinds[(i / m / 2) as usize];
            let w = |k: K| if sub { cat(b"prefix__", &k) } else { k };
            // a group of ten needs the slice of zeros (which includes the empty key) and nothing before it
            let zero = g == 10;
            let before = if zero { 0 } else { before };
            let member = |x: u8| -> K {
                let base: &[u8] = if zero { b"" } else { b"m" };
                let l = x as usize + usize::from(!zero);
                if l <= 8 {
                    cat(base, &rep(0, l - base.len()))
                } else {
                    cat(&cat(base, &rep(0, 8 - base.len())), b"tail")
                }
            };
            let mut ks: Vec<K> = Vec::new();
            for x in 0..before {
                ks.push(w(vec![b'a', x * 4 + 4]));
            }
            for x in 0..g {
                ks.push(w(member(x)));
            }
            for x in 0..24 - g - before {
                ks.push(w(vec![b'x', x * 4 + 4]));
            }
            let mut sorted = ks.clone();
            sorted.sort();
            // the new key: just below the gap-th key, or above everything
            let nk = if gap < 24 {
                let k = &sorted[gap as usize];
                let lo = if gap == 0 { None } else { Some(sorted[gap as usize - 1].clone()) };
                between(lo.as_deref(), k)
            } else {
                Some(w(vec![b'x', 0xfe]))
            };
            let n = ks.len() as u64;
            let start: Vec<K> = match o {
                0 => ks.clone(),
                1 => ks.iter().rev().cloned().collect(),
                2 => order(3, n).into_iter().map(|x| ks[x as usize].clone()).collect(),
                _ => order(4, n).into_iter().map(|x| ks[x as usize].clone()).collect(),
            };
            let mut ops: Vec<Op> = nk.into_iter().map(Op::Ins).collect();
            // then complete the group, and grow on
            for x in g..10 {
                if zero || x < 9 {
                    ops.push(Op::Ins(w(member(x))));
                }
            }
            ops.push(Op::Ins(w(cat(&member(9), b"?"))));
            Case { kind, api: 0, start: Rc::new(start), ops, step: no(), end: no(), all: true }
        }),
    }
}
/// A key strictly between lo and hi, if a short one exists.
fn between(lo: Option<&[u8]>, hi: &[u8]) -> Option<K> {
    let mut c: Vec<K> = Vec::new();
    if let Some((l, h)) = hi.split_last() {
        c.push(h.to_vec());
        for d in [1u8, 2] {
            if *l >= d {
                c.push(cat(h, &[l - d]));
                c.push(cat(h, &[l - d, 7]));
                c.push(cat(&cat(h, &[l - d]), b"-a long tail"));
            }
        }
    }
    if let Some(lo) = lo {
        c.push(cat(lo, b"\0"));
        c.push(cat(lo, b"x"));
    }
    c.into_iter().find(|k| k.as_slice() < hi && lo.is_none_or(|l| k.as_slice() > l) && k.len() <= 256)
}

/// Every key of a map is overwritten, one case per key; everything is read afterwards.
pub fn updates(kinds: &'static [u8]) -> Fam {
    let n = 90u64;
    let per = SHAPES as u64 * n * 2;
    Fam {
        name: format!("updates-{}", kinds.len()),
        what: format!("maps of {n} keys in 13 shapes and 2 orders: each key overwritten twice, everything read after each operation, {} map and value types", kinds.len()),
        n: per * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = kinds[(i / per) as usize];
            let r = i % per;
            let sh = (r / (n * 2)) as usize;
            let o = [0, 4][(r / n % 2) as usize];
            let st: Vec<K> = order(o, n).into_iter().map(|j| shape(sh, j)).collect();
            let k = shape(sh, r % n);
            Case { kind, api: 3, start: Rc::new(st), ops: vec![Op::Ins(k.clone()), Op::Ins(k)], step: no(), end: no(), all: true }
        }),
    }
}

/// Over-long keys against maps of all kinds, between ordinary operations.
pub fn overlong() -> Fam {
    let lens: Vec<usize> = (257..=300).chain([320, 511, 512, 513, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 65792, 65793, 70000, 1 << 17, (1 << 16) + 256, 1 << 20]).collect();
    let per = lens.len() as u64 * 4;
    Fam {
        name: "overlong".into(),
        what: format!("{} lengths above 256 (including those that are legal modulo 2^8, 2^16), 4 fills, on 3 map types and 4 starting maps, through every entry point", lens.len()),
        n: per * 12,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = (i / per % 3) as u8;
            let s = i / per / 3;
            let f = [0u8, b'a', 0xff, b'k'][(i % 4) as usize];
            let n = lens[(i / 4 % lens.len() as u64) as usize];
            let start: Vec<K> = match s {
                0 => vec![],
                // every legal length of the same fill: what a truncated key would collide with
                1 => (0..=256).map(|l| rep(f, l)).collect(),
                2 => vec![rep(f, 256)],
                _ => (0..40).map(|i| k8(i * 1000)).collect(),
            };
            let probes: Vec<K> = [0usize, 1, 7, 8, 9, 255, 256].iter().map(|&l| rep(f, l)).collect();
            let ops = vec![Op::Bad(rep(f, n)), Op::Ins(rep(f, 256)), Op::Bad(rep(f, n)), Op::Ins(rep(f, 8)), Op::Ins(rep(f, 255))];
            Case { kind, api: 1, start: Rc::new(start), ops, step: Rc::new(probes), end: no(), all: true }
        }),
    }
}
/// Keys of exactly the maximal lengths work.
pub fn maxlen() -> Fam {
    Fam {
        name: "maxlen".into(),
        what: "all triples of lengths 241..=256 with a differing last byte, 2 map types".into(),
        n: 16 * 16 * 16 * 2,
        exec: Exec::Map,
        f: Box::new(|i| {
            let kind = (i / 4096) as u8;
            let l = [i % 16, i / 16 % 16, i / 256 % 16].map(|x| 241 + x as usize);
            let ks: Vec<K> = l.iter().enumerate().map(|(j, &n)| { let mut k = rep(b'Q', n); *k.last_mut().unwrap() = b'R' + j as u8; k }).collect();
            Case { kind, api: 0, start: no(), ops: ks.iter().cloned().map(Op::Ins).collect(), step: Rc::new(ks), end: no(), all: true }
        }),
    }
}

/// The same cases with tracked values, handles kept in all combinations.
pub fn owned(depth: u32, size: usize) -> Fam {
    let mut base = Vec::new();
    for (_, a) in alphabets(size) {
        for (j, s) in starts(&a, false).into_iter().enumerate() {
            if [0, 1, 2, 5, 6, 8].contains(&j) {
                base.push((a.clone(), Rc::new(s)));
            }
        }
    }
    let per = (size as u64).pow(depth);
    let nb = base.len() as u64;
    Fam {
        name: format!("owned-{depth}-{size}"),
        what: format!("all {per} insert sequences of length {depth} over 12 alphabets of {size} keys from {} starting maps, keeping no handles, displaced values, all values, all under one guard", nb / 12),
        n: per * nb * 8,
        exec: Exec::Owned,
        f: Box::new(move |i| {
            let r = i / 8;
            let (a, s) = &base[(r / per) as usize];
            let mut c = r % per;
            let mut ops = Vec::new();
            for _ in 0..depth {
                ops.push(Op::Ins(a[(c % size as u64) as usize].clone()));
                c /= size as u64;
            }
            Case { kind: 9, api: (i % 8) as u8, start: s.clone(), ops, step: no(), end: no(), all: false }
        }),
    }
}
/// Growth with tracked values and with repeated updates.
pub fn owned_growth(sizes: &'static [u64]) -> Fam {
    let per = (sizes.len() * ORDERS * SHAPES) as u64;
    Fam {
        name: format!("owned-growth-{}", sizes.iter().max().unwrap()),
        what: format!("maps grown to {} sizes (largest {}) in 8 orders and 13 shapes, then every third key overwritten, with handles kept in all combinations", sizes.len(), sizes.iter().max().unwrap()),
        n: per * 8,
        exec: Exec::Owned,
        f: Box::new(move |i| {
            let r = (i / 8 % per) as usize;
            let n = sizes[r / (ORDERS * SHAPES)];
            let ks: Vec<K> = order(r / SHAPES % ORDERS, n).into_iter().map(|j| shape(r % SHAPES, j)).collect();
            let ops = ks.iter().step_by(3).cloned().map(Op::Ins).collect();
            Case { kind: 9, api: (i % 8) as u8, start: Rc::new(ks), ops, step: no(), end: no(), all: false }
        }),
    }
}
/// Memory balance for map types and shapes.
pub fn heap(sizes: &'static [u64]) -> Fam {
    let per = (sizes.len() * ORDERS * SHAPES) as u64;
    let kinds: Vec<u8> = vec![0, 1, 2, 10, 14, 16, 18];
    Fam {
        name: format!("heap-{}", sizes.iter().max().unwrap()),
        what: format!("allocation balance of {} map and value types grown to {} sizes (largest {}) in 8 orders and 13 shapes with every third key overwritten", kinds.len(), sizes.len(), sizes.iter().max().unwrap()),
        n: per * kinds.len() as u64,
        exec: Exec::Heap,
        f: Box::new(move |i| {
            let r = (i % per) as usize;
            let n = sizes[r / (ORDERS * SHAPES)];
            let ks: Vec<K> = order(r / SHAPES % ORDERS, n).into_iter().map(|j| shape(r % SHAPES, j)).collect();
            let ops = ks.iter().step_by(3).cloned().map(Op::Ins).collect();
            Case { kind: kinds[(i / per) as usize], api: 1, start: Rc::new(ks), ops, step: no(), end: no(), all: false }
        }),
    }
}
/// The same for the sequences over alphabets.
pub fn heap_seq(depth: u32, size: usize) -> Fam {
    let o = owned(depth, size);
    Fam {
        name: format!("heap-seq-{depth}-{size}"),
        what: format!("allocation balance after all insert sequences of length {depth} over 12 alphabets of {size} keys from 6 starting maps, 2 map types"),
        n: o.n / 4,
        exec: Exec::Heap,
        f: Box::new(move |i| {
            let mut c = (o.f)(i / 2 * 8);
            c.kind = (i % 2) as u8;
            c
        }),
    }
}

/// Every number pattern as a value, stored, replaced and read through every entry point.
pub fn values() -> Fam {
    let kinds = VALUE_KINDS;
    let per = 16 * 16 * 4u64;
    Fam {
        name: "values".into(),
        what: format!("{} value types: all ordered pairs of 16 sentinel-like values stored one over the other and moved by splits and layers in 4 starting maps", kinds.len()),
        n: per * kinds.len() as u64,
        exec: Exec::Map,
        f: Box::new(move |i| {
            let kind = kinds[(i / per) as usize];
            let r = i % per;
            // values are numbered from 1 in insertion order: padding selects the pattern
            let (a, b, s) = (r % 16, r / 16 % 16, r / 256);
            let mut start: Vec<K> = (0..a).map(|x| k8(x * 2)).collect();
            let k = match s {
                0 => k8(1001),
                1 => cat(b"valuekey", b"suffix"),
                2 => cat(b"valuekey", b"suffix"),
                _ => b"v".to_vec(),
            };
            if s == 2 {
                start.extend((0..24u64).map(|x| k8(x * 2 + (1 << 62))));
            }
            let mut ops = vec![Op::Ins(k.clone())];
            ops.extend((0..b).map(|x| Op::Ins(cat(b"valuekey", &k8(x)))));
            ops.push(Op::Ins(k));
            ops.extend((0..26u64).map(|x| Op::Ins(cat(b"valuekey", &k8(x << 40)))));
            Case { kind, api: 3, start: Rc::new(start), ops, step: no(), end: no(), all: true }
        }),
    }
}

/// All families a property uses, in order.
pub fn plan(id: &str, thorough: bool) -> Vec<Fam> {
    const BOTH: &[u8] = &[0, 1];
    const ARC: &[u8] = &[0];
    const SIX: &[u8] = &[0, 1, 2, 3, 4, 5];
    const SM: &[u64] = &[10, 24, 25, 26, 37, 48, 49, 60, 100, 180, 204, 205, 230, 320];
    const MD: &[u64] = &[700, 1500, 3000];
    const LG: &[u64] = &[10_000, 60_000];
    match (id, thorough) {
        ("M01", false) => vec![sequences(4, 8, BOTH, 0, true), updates(BOTH), growth(SM, BOTH, "small"), growth(MD, BOTH, "medium"), sequences(5, 7, ARC, 1, false)],
        ("M01", true) => vec![sequences(4, 8, BOTH, 0, true), updates(BOTH), growth(SM, BOTH, "small"), growth(MD, BOTH, "medium"), sequences(5, 8, BOTH, 0, true), growth(LG, ARC, "large"), sequences(6, 7, ARC, 1, false), sequences(6, 8, ARC, 0, false)],
        ("M02", false) => vec![tuples(usize::MAX, 2, 0), lengths(), onebyte(0), onebyte(1), alllengths(), tuples(90, 3, 0), tuples(usize::MAX, 2, 1), orders(7, BOTH), orders(8, ARC), tuples(160, 3, 0)],
        ("M02", true) => vec![tuples(usize::MAX, 2, 0), lengths(), onebyte(0), onebyte(1), alllengths(), tuples(90, 3, 0), tuples(usize::MAX, 2, 1), orders(8, BOTH), tuples(300, 3, 0), orders(9, ARC), tuples(700, 3, 0)],
        ("M03", false) => vec![groups(BOTH), gaps(&[12, 24, 36, 48, 204, 312], 1), growth(SM, BOTH, "small"), growth(MD, BOTH, "medium"), gaps(&[1824], 3), gaps(&[60, 72, 84, 96, 108, 120, 192, 216, 228, 300, 324], 1), growth(&[10_000], ARC, "large")],
        ("M03", true) => vec![groups(BOTH), gaps(&[12, 24, 36, 48, 204, 312], 1), growth(SM, BOTH, "small"), growth(MD, BOTH, "medium"), gaps(&[12, 24, 36, 48, 60, 72, 84, 96, 108, 120, 192, 204, 216, 228, 300, 312, 324, 420], 1), gaps(&[1824], 1), growth(LG, BOTH, "large"), gaps(&[27_000], 97)],
        ("M04", false) => vec![sequences(4, 7, BOTH, 1, true), groups(BOTH), gaps(&[24, 36, 204, 312], 1), growth(SM, SIX, "small"), growth(MD, BOTH, "medium"), sequences(5, 6, ARC, 1, true)],
        ("M04", true) => vec![sequences(4, 7, BOTH, 1, true), groups(BOTH), gaps(&[24, 36, 204, 312], 1), growth(SM, SIX, "small"), growth(MD, SIX, "medium"), sequences(5, 8, SIX, 1, true), growth(LG, BOTH, "large"), sequences(6, 7, ARC, 0, true)],
        ("M05", _) => vec![overlong(), maxlen(), lengths()],
        ("M06", false) => vec![owned(4, 5), owned_growth(&[10, 26, 60, 205, 320]), heap_seq(4, 5), heap(&[0, 1, 24, 25, 60, 205, 320, 700]), owned(4, 8), heap_seq(4, 8), owned_growth(&[1500])],
        ("M06", true) => vec![owned(4, 5), owned_growth(&[10, 26, 60, 205, 320]), heap_seq(4, 5), heap(&[0, 1, 24, 25, 60, 205, 320, 700, 2000]), owned(5, 6), owned_growth(&[700, 2000]), heap_seq(5, 6), owned(6, 5), owned(5, 8), heap_seq(5, 8), heap(&[20_000])],
        ("M07", false) => vec![sequences(3, 7, SIX, 3, true), values(), updates(SIX), updates(VALUE_KINDS), sequences(4, 5, SIX, 3, false)],
        ("M07", true) => vec![sequences(3, 7, SIX, 3, true), values(), updates(SIX), updates(VALUE_KINDS), sequences(5, 7, SIX, 3, true)],
        ("M08", false) => vec![sequences(3, 7, BOTH, 0, true), updates(BOTH), overlong(), groups(BOTH), growth(SM, BOTH, "small"), gaps(&[24, 36, 204, 312], 1), owned(4, 5), growth(&[700], ARC, "medium"), lengths()],
        ("M08", true) => vec![sequences(4, 7, BOTH, 0, true), updates(BOTH), lengths(), overlong(), groups(BOTH), growth(SM, BOTH, "small"), gaps(&[12, 24, 36, 48, 204, 312], 1), owned(4, 8), growth(MD, BOTH, "medium"), sequences(4, 8, BOTH, 0, true), growth(LG, ARC, "large")],
        _ => vec![],
    }
}
/// Which kinds of violation count for the property.
pub fn counts(id: &str, kind: &str) -> bool {
    match id {
        "M04" => matches!(kind, "len" | "error" | "panic" | "crash" | "hang"),
        "M08" => true,
        _ => kind != "len",
    }
}
