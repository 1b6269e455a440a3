//! P03: suffix storage against a map from slot to bytes.
use crate::perm::{apply, O, P};
use crate::{ck, panics, part, Part, St, R};
use masstree::permuter::Permuter;
use masstree::{Permuter24, SuffixBag};
use std::cell::RefCell;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug)]
enum A {
    Assign(usize, usize),
    Try(usize, usize),
    Clear(usize),
    /// keep the slots of this bit set, in this order (0 up, 1 down)
    Compact(u32, u8),
    Perm(usize, Option<usize>),
    Clone,
}
/// Text t for slot s: distinct for every (slot, text), some a prefix of another.
fn text(lens: &[usize], s: usize, t: usize) -> Vec<u8> {
    (0..lens[t]).map(|i| if i + 1 == lens[t] { (s * 16 + t + 1) as u8 } else { (i % 251) as u8 }).collect()
}
fn agree<const W: usize>(st: &mut St, b: &SuffixBag<W>, m: &[Option<Vec<u8>>], lens: &[usize], did: &[A], probe: bool) -> R {
    let mut n = 0;
    for s in 0..W {
        let g = b.get(s);
        ck!(st, g == m[s].as_deref(), "slot {s} holds {g:?} instead of {:?} after {did:?}", m[s]);
        ck!(st, b.has_suffix(s) == m[s].is_some() && b.get_or_empty(s) == m[s].as_deref().unwrap_or(&[]), "slot {s}: has_suffix or get_or_empty after {did:?}");
        n += usize::from(m[s].is_some());
        if probe {
            for q in 0..lens.len() {
                for o in 0..W {
                    let x = text(lens, o, q);
                    let want = m[s].as_ref().map(|v| v.as_slice().cmp(&x[..]));
                    ck!(st, b.suffix_compare(s, &x) == want && b.suffix_equals(s, &x) == (want == Some(std::cmp::Ordering::Equal)), "slot {s}: comparison with text {q} of slot {o} after {did:?}");
                }
            }
        }
    }
    ck!(st, b.count() == n, "count is {} instead of {n} after {did:?}", b.count());
    let total: usize = m.iter().flatten().map(Vec::len).sum();
    ck!(st, b.used() <= b.capacity() && b.used() >= total, "used {} capacity {} total {total} after {did:?}", b.used(), b.capacity());
    Ok(())
}
/// All sequences of up to d actions.
fn walk<const W: usize>(st: &mut St, b: &SuffixBag<W>, m: &[Option<Vec<u8>>], did: &mut Vec<A>, acts: &[A], lens: &[usize], d: usize) -> R {
    for &a in acts {
        did.push(a);
        // the bag is copied by replaying the capacity exactly: a clone may have less
        let mut c: SuffixBag<W> = SuffixBag::with_capacity(0);
        replay(&mut c, b, did, lens);
        let mut k = m.to_vec();
        st.trans += 1;
        st.states += 1;
        let (used, cap) = (c.used(), c.capacity());
        match a {
            A::Assign(s, t) => {
                let x = text(lens, s, t);
                c.assign(s, &x);
                k[s] = Some(x);
            }
            A::Try(s, t) => {
                let x = text(lens, s, t);
                let fits = used + x.len() <= cap || k[s].as_ref().is_some_and(|v| x.len() <= v.len());
                let r = c.try_assign_in_place(s, &x);
                ck!(st, r == fits, "try_assign_in_place says {r} with {used} of {cap} bytes used, slot holding {:?}, new length {} after {did:?}", k[s].as_ref().map(Vec::len), x.len());
                ck!(st, c.capacity() == cap, "try_assign_in_place moved the storage after {did:?}");
                if r {
                    k[s] = Some(x);
                }
            }
            A::Clear(s) => {
                c.clear(s);
                k[s] = None;
            }
            A::Compact(set, dir) => {
                let mut v: Vec<usize> = (0..32).filter(|i| set >> i & 1 == 1).collect();
                if dir == 1 {
                    v.reverse();
                }
                let r = c.compact(v.into_iter());
                (0..W).filter(|s| set >> s & 1 == 0).for_each(|s| k[s] = None);
                let total: usize = k.iter().flatten().map(Vec::len).sum();
                ck!(st, c.used() == total && r == used - total, "compact reclaims {r} of {used}, {} left for {total} after {did:?}", c.used());
            }
            A::Perm(n, ex) => {
                let mut p = Permuter::<W>::none();
                (0..n).for_each(|i| {
                    apply(&mut p, O::Ins(i / 2));
                });
                let keep: BTreeSet<usize> = (0..n).map(|i| p.get(i)).filter(|s| Some(*s) != ex).collect();
                let r = c.compact_with_permuter(&p, ex);
                (0..W).filter(|s| !keep.contains(s)).for_each(|s| k[s] = None);
                let total: usize = k.iter().flatten().map(Vec::len).sum();
                ck!(st, c.used() == total && r == used - total, "compact_with_permuter reclaims {r} of {used}, {} left for {total} after {did:?}", c.used());
            }
            A::Clone => {
                let old = c.clone();
                agree(st, &old, &k, lens, did, false)?;
                // the copy and the original are independent
                let x = text(lens, 0, 1);
                let mut d = c.clone();
                d.assign(0, &x);
                d.clear(W - 1);
                agree(st, &c, &k, lens, did, false)?;
                c = old;
            }
        }
        agree(st, &c, &k, lens, did, did.len() < 3)?;
        if did.len() < d {
            walk(st, &c, &k, did, acts, lens, d)?;
        }
        did.pop();
    }
    Ok(())
}
thread_local!(static CAP: RefCell<usize> = const { RefCell::new(0) });
/// Builds the bag anew: all actions but the last.
fn replay<const W: usize>(c: &mut SuffixBag<W>, _from: &SuffixBag<W>, did: &[A], lens: &[usize]) {
    let cap = CAP.with(|c| *c.borrow());
    *c = if cap == 999 { SuffixBag::new() } else { SuffixBag::with_capacity(cap) };
    for a in &did[..did.len() - 1] {
        match *a {
            A::Assign(s, t) => c.assign(s, &text(lens, s, t)),
            A::Try(s, t) => {
                c.try_assign_in_place(s, &text(lens, s, t));
            }
            A::Clear(s) => c.clear(s),
            A::Compact(set, dir) => {
                let mut v: Vec<usize> = (0..32).filter(|i| set >> i & 1 == 1).collect();
                if dir == 1 {
                    v.reverse();
                }
                c.compact(v.into_iter());
            }
            A::Perm(n, ex) => {
                let mut p = Permuter::<W>::none();
                (0..n).for_each(|i| {
                    apply(&mut p, O::Ins(i / 2));
                });
                c.compact_with_permuter(&p, ex);
            }
            A::Clone => *c = c.clone(),
        }
    }
}
fn run<const W: usize>(st: &mut St, cap: usize, lens: &[usize], d: usize) -> R {
    CAP.with(|c| *c.borrow_mut() = cap);
    let mut acts = vec![A::Clone];
    for s in 0..W {
        acts.push(A::Clear(s));
        for t in 0..lens.len() {
            acts.push(A::Assign(s, t));
            acts.push(A::Try(s, t));
        }
    }
    for set in 0..1u32 << W {
        acts.push(A::Compact(set, (set % 2) as u8));
    }
    acts.push(A::Compact(1 << 30 | 1, 0));
    acts.push(A::Perm(W, None));
    acts.push(A::Perm(W, Some(0)));
    acts.push(A::Perm(W - 1, Some(W - 1)));
    let b: SuffixBag<W> = if cap == 999 { SuffixBag::default() } else { SuffixBag::with_capacity(cap) };
    ck!(st, b.capacity() >= if cap == 999 { 0 } else { cap } && b.used() == 0, "a new bag has capacity {}", b.capacity());
    agree(st, &b, &vec![None; W], lens, &[], true)?;
    walk(st, &b, &vec![None; W], &mut vec![], &acts, lens, d)
}
/// All 24 slots, every length to 248, filled, overwritten, cleared and compacted in several orders.
fn wide(st: &mut St, _: bool) -> R {
    for a in 0..=248usize {
        for how in 0..4 {
            let mut b: SuffixBag<24> = SuffixBag::new();
            let mut m: Vec<Option<Vec<u8>>> = vec![None; 24];
            for i in 0..24 {
                let s = (i * [1, 5, 7, 11][how] + a) % 24;
                let l = (a + i * 37) % 249;
                let x: Vec<u8> = (0..l).map(|j| (j * 7 + s * 3 + a) as u8).collect();
                if how % 2 == 0 || !b.try_assign_in_place(s, &x) {
                    b.assign(s, &x);
                }
                m[s] = Some(x);
                st.trans += 1;
            }
            for i in 0..24 {
                let s = (i * 7 + a) % 24;
                match (i + how) % 4 {
                    0 => {
                        b.clear(s);
                        m[s] = None;
                    }
                    1 => {
                        let x = vec![(a + i) as u8; (a * 3 + i) % 249];
                        if !b.try_assign_in_place(s, &x) {
                            b.assign(s, &x);
                        }
                        m[s] = Some(x);
                    }
                    _ => {}
                }
                for t in 0..24 {
                    ck!(st, b.get(t) == m[t].as_deref(), "length {a}, order {how}: slot {t} differs after changing {s}");
                }
            }
            let mut p = Permuter24::empty();
            for i in 0..1 + a % 24 {
                let _ = p.insert_from_back(i / 3);
            }
            let used = b.used();
            let r = b.compact_with_permuter(&p, Some(a % 24));
            for s in 0..24 {
                if s == a % 24 || !(0..p.size()).any(|i| p.get(i) == s) {
                    m[s] = None;
                }
                ck!(st, b.get(s) == m[s].as_deref(), "length {a}, order {how}: slot {s} differs after compacting");
            }
            let total: usize = m.iter().flatten().map(Vec::len).sum();
            ck!(st, b.used() == total && r == used - total, "length {a}, order {how}: compacting reclaims {r} of {used}, {} left", b.used());
            st.states += 1;
        }
    }
    Ok(())
}
/// The longest suffix is 65,535 bytes; a longer one is refused and changes nothing.
fn long(st: &mut St, _: bool) -> R {
    for l in [65_534usize, 65_535, 65_536, 65_537, 131_072, 131_073] {
        let x = vec![7u8; l];
        let mut b: SuffixBag<3> = SuffixBag::new();
        b.assign(1, b"kept");
        st.states += 1;
        st.trans += 2;
        let refused = panics(|| b.assign(0, &x));
        ck!(st, refused == (l > 65_535), "assign of {l} bytes: refused is {refused}");
        ck!(st, b.get(1) == Some(b"kept") && if refused { b.get(0).is_none() } else { b.get(0) == Some(&x[..]) }, "after assign of {l} bytes");
        let mut b: SuffixBag<3> = SuffixBag::with_capacity(200_000);
        b.assign(1, b"kept");
        let mut r = false;
        let refused = panics(|| r = b.try_assign_in_place(0, &x));
        ck!(st, refused == (l > 65_535) && (refused || r), "try_assign_in_place of {l} bytes: refused is {refused}");
        ck!(st, b.get(1) == Some(b"kept") && if refused { b.get(0).is_none() } else { b.get(0) == Some(&x[..]) }, "after try_assign_in_place of {l} bytes");
    }
    Ok(())
}
/// Long histories: more bytes than 16 bits count go through one bag without compaction.
fn history(st: &mut St, t: bool) -> R {
    let lens: &[usize] = if t { &[1, 2, 7, 8, 9, 31, 60, 100, 127, 128, 200, 242, 247, 248] } else { &[8, 60, 128, 248] };
    for &l in lens {
        for how in 0..6usize {
            let mut b: SuffixBag<24> = SuffixBag::new();
            let mut m: Vec<Option<Vec<u8>>> = vec![None; 24];
            let mut i = 0usize;
            while b.used() < 140_000 {
                let s = (i * [1, 5, 7, 11, 23, 0][how] + i / 24) % 24;
                // longer than what the slot holds now and then, so that nothing is reused
                let n = if how == 5 { l } else { (l + i % 3).min(248) };
                let x: Vec<u8> = (0..n).map(|j| (j * 7 + i * 3 + (i >> 8)) as u8).collect();
                if how % 2 == 0 {
                    b.assign(s, &x);
                } else {
                    b.clear(s);
                    if !b.try_assign_in_place(s, &x) {
                        b.assign(s, &x);
                    }
                }
                m[s] = Some(x);
                st.trans += 1;
                if how == 2 && i % 64 == 0 {
                    b = b.clone();
                }
                for t in 0..24 {
                    ck!(st, b.get(t) == m[t].as_deref(), "length {l}, order {how}: slot {t} differs after {i} assignments, {} bytes used", b.used());
                }
                i += 1;
            }
            b.compact((0..24).filter(|s| s % 3 != 0));
            for t in 0..24 {
                ck!(st, b.get(t) == if t % 3 == 0 { None } else { m[t].as_deref() }, "length {l}, order {how}: slot {t} differs after compacting");
            }
            st.states += 1;
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    const T: &str = "all sequences of 5 (6 when thorough) actions (assign, assign in place, clear, compact, compact by permutation, clone) over every slot and text length";
    vec![
        part("seq2.0", T, |s, t| run::<2>(s, 0, &[0, 1, 6], if t { 6 } else { 5 })),
        part("seq2.7", T, |s, t| run::<2>(s, 7, &[1, 3, 6], if t { 6 } else { 5 })),
        part("seq2.new", T, |s, t| run::<2>(s, 999, &[0, 40, 90], if t { 6 } else { 5 })),
        part("seq3.12", "all sequences of 4 (5 when thorough) such actions, three slots", |s, t| run::<3>(s, 12, &[0, 2, 5], if t { 5 } else { 4 })),
        part("seq3.new", "all sequences of 4 (5 when thorough) such actions, three slots", |s, t| run::<3>(s, 999, &[5, 60, 120], if t { 5 } else { 4 })),
        part("wide", "24 slots: 249 base lengths, four orders of filling, changing, clearing and compacting", wide),
        part("history", "140,000 bytes of suffixes through one bag without compaction: 4 (14 when thorough) lengths, six orders of slots, every slot read after each assignment", history),
        part("long", "lengths around 65,535 bytes", long),
    ]
}
