//! P01: slot permutations against arrays.
use crate::{ck, part, Part, St, R};
use masstree::permuter::Permuter;
use masstree::suffix::PermutationProvider;
use masstree::{AtomicPermuter24, Permuter24, TreePermutation};
use std::collections::HashSet;
use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst};

/// The inherent operations of both permutation types.
pub trait P: TreePermutation + PermutationProvider + Copy + std::fmt::Debug {
    const N: usize;
    fn raw(&self) -> u128;
    fn size_(&self) -> usize;
    fn get_(&self, i: usize) -> usize;
    fn back_(&self) -> usize;
    fn off(&self, i: usize) -> usize;
    fn ins(&mut self, i: usize) -> usize;
    fn ins_im(&self, i: usize) -> (Self, usize);
    fn rem(&mut self, i: usize);
    fn rtb(&mut self, i: usize);
    fn xch(&mut self, i: usize, j: usize);
    fn rot(&mut self, i: usize, j: usize);
    fn put(&mut self, i: usize, s: usize);
    fn resize(&mut self, n: usize);
    fn swapf(&mut self, i: usize, j: usize);
    fn none() -> Self;
    fn sorted(n: usize) -> Self;
    fn valid(&self);
    fn round(&self) -> Self;
}
macro_rules! imp {
    ($($g:tt)*) => {
        fn raw(&self) -> u128 { self.value() as u128 }
        fn size_(&self) -> usize { self.size() }
        fn get_(&self, i: usize) -> usize { self.get(i) }
        fn back_(&self) -> usize { self.back() }
        fn off(&self, i: usize) -> usize { self.back_at_offset(i) }
        fn ins(&mut self, i: usize) -> usize { self.insert_from_back(i) }
        fn ins_im(&self, i: usize) -> (Self, usize) { self.insert_from_back_immutable(i) }
        fn rem(&mut self, i: usize) { self.remove(i) }
        fn rtb(&mut self, i: usize) { self.remove_to_back(i) }
        fn xch(&mut self, i: usize, j: usize) { self.exchange(i, j) }
        fn rot(&mut self, i: usize, j: usize) { self.rotate(i, j) }
        fn put(&mut self, i: usize, s: usize) { self.set(i, s) }
        fn resize(&mut self, n: usize) { self.set_size(n) }
        fn swapf(&mut self, i: usize, j: usize) { self.swap_free_slots(i, j) }
        fn none() -> Self { <$($g)*>::empty() }
        fn sorted(n: usize) -> Self { <$($g)*>::make_sorted(n) }
        fn valid(&self) { self.debug_assert_valid() }
        fn round(&self) -> Self { <$($g)*>::from_value(self.value()) }
    };
}
impl<const W: usize> P for Permuter<W> {
    const N: usize = W;
    imp!(Permuter<W>);
}
impl P for Permuter24 {
    const N: usize = 24;
    imp!(Permuter24);
}

/// The reference: how many positions are in use, and the slot at every position.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct M {
    pub n: u8,
    pub a: [u8; 24],
}
#[derive(Clone, Copy, Debug)]
pub enum O {
    Ins(usize),
    InsIm(usize),
    Rem(usize),
    Rtb(usize),
    Xch(usize, usize),
    Rot(usize, usize),
    Size(usize),
    SwapF(usize, usize),
}
impl M {
    pub fn none(w: usize) -> M {
        let mut a = [0; 24];
        (0..w).for_each(|i| a[i] = (w - 1 - i) as u8);
        M { n: 0, a }
    }
    pub fn apply(&mut self, w: usize, o: O) -> usize {
        let n = self.n as usize;
        match o {
            O::Ins(i) | O::InsIm(i) => {
                self.a[i..w].rotate_right(1);
                self.n += 1;
                return self.a[i] as usize;
            }
            O::Rem(i) => {
                self.a[i..n].rotate_left(1);
                self.n -= 1;
            }
            O::Rtb(i) => {
                self.a[i..w].rotate_left(1);
                self.n -= 1;
            }
            O::Xch(i, j) | O::SwapF(i, j) => self.a.swap(i, j),
            O::Rot(i, j) => self.a[i..w].rotate_left(if i < w { (j - i) % (w - i) } else { 0 }),
            O::Size(k) => self.n = k as u8,
        }
        0
    }
    pub fn ops(&self, w: usize) -> Vec<O> {
        let n = self.n as usize;
        let mut v = vec![];
        if n < w {
            v.extend((0..=n).flat_map(|i| [O::Ins(i), O::InsIm(i)]));
        }
        v.extend((0..n).flat_map(|i| [O::Rem(i), O::Rtb(i)]));
        for i in 0..w {
            for j in 0..w {
                v.push(O::Xch(i, j));
                if i >= n && j >= n {
                    v.push(O::SwapF(i, j));
                }
            }
        }
        for i in 0..=w {
            (i..=w).for_each(|j| v.push(O::Rot(i, j)));
        }
        (0..=w).for_each(|k| v.push(O::Size(k)));
        v
    }
}
pub fn apply<T: P>(p: &mut T, o: O) -> usize {
    match o {
        O::Ins(i) => p.ins(i),
        O::InsIm(i) => {
            let (q, s) = p.ins_im(i);
            *p = q;
            s
        }
        O::Rem(i) => {
            p.rem(i);
            0
        }
        O::Rtb(i) => {
            p.rtb(i);
            0
        }
        O::Xch(i, j) => {
            p.xch(i, j);
            0
        }
        O::Rot(i, j) => {
            p.rot(i, j);
            0
        }
        O::Size(n) => {
            p.resize(n);
            0
        }
        O::SwapF(i, j) => {
            p.swapf(i, j);
            0
        }
    }
}
pub fn same<T: P>(p: &T, m: &M) -> bool {
    p.size_() == m.n as usize && (0..T::N).all(|i| p.get_(i) == m.a[i] as usize)
}
pub fn show<T: P>(p: &T) -> String {
    format!("size {} slots {:?}", p.size_(), (0..T::N).map(|i| p.get_(i)).collect::<Vec<_>>())
}
/// Every way of looking at a permutation agrees with the reference.
fn look<T: P>(st: &mut St, p: &T, m: &M) -> R {
    let (w, n) = (T::N, m.n as usize);
    ck!(st, same(p, m), "width {w}: {} instead of {m:?}", show(p));
    ck!(st, p.back_() == m.a[w - 1] as usize && TreePermutation::back(p) == p.back_(), "width {w}: back of {m:?} is {}", p.back_());
    for o in 0..w - n {
        ck!(st, p.off(o) == m.a[w - 1 - o] as usize && TreePermutation::back_at_offset(p, o) == p.off(o), "width {w}: back_at_offset({o}) of {m:?} is {}", p.off(o));
    }
    ck!(st, TreePermutation::size(p) == n && PermutationProvider::size(p) == n, "width {w}: size through a trait, {m:?}");
    for i in 0..w {
        ck!(st, TreePermutation::get(p, i) == m.a[i] as usize && PermutationProvider::get(p, i) == m.a[i] as usize, "width {w}: get({i}) through a trait, {m:?}");
    }
    ck!(st, same(&p.round(), m) && same(&T::from_value(TreePermutation::value(p)), m), "width {w}: raw value of {m:?} does not round trip");
    p.valid();
    Ok(())
}
pub fn step<T: P>(st: &mut St, p: &T, m: &M, o: O) -> Result<(T, M), String> {
    let (mut q, mut k) = (*p, *m);
    let want = k.apply(T::N, o);
    let got = apply(&mut q, o);
    st.trans += 1;
    ck!(st, got == want && same(&q, &k), "width {}: {o:?} on {} gives {} (returned {got}) instead of {k:?}", T::N, show(p), show(&q));
    if let O::Ins(i) = o {
        let mut t = *p;
        ck!(st, TreePermutation::insert_from_back(&mut t, i) == want && same(&t, &k), "width {}: trait {o:?} on {}", T::N, show(p));
        let (t, s) = TreePermutation::insert_from_back_immutable(p, i);
        ck!(st, s == want && same(&t, &k) && same(p, m), "width {}: trait insert_from_back_immutable({i}) on {}", T::N, show(p));
    }
    if let O::SwapF(i, j) = o {
        let mut t = *p;
        TreePermutation::swap_free_slots(&mut t, i, j);
        ck!(st, same(&t, &k), "width {}: trait {o:?} on {}", T::N, show(p));
    }
    if let O::Size(n) = o {
        let mut t = *p;
        TreePermutation::set_size(&mut t, n);
        ck!(st, same(&t, &k), "width {}: trait {o:?} on {}", T::N, show(p));
    }
    Ok((q, k))
}
fn sets<T: P>(st: &mut St, p: &T, m: &M) -> R {
    for i in 0..T::N {
        for s in 0..T::N {
            let (mut q, mut k) = (*p, *m);
            q.put(i, s);
            k.a[i] = s as u8;
            st.trans += 1;
            ck!(st, same(&q, &k), "width {}: set({i}, {s}) on {} gives {}", T::N, show(p), show(&q));
        }
    }
    Ok(())
}
pub fn starts<T: P>(st: &mut St) -> Result<Vec<(T, M)>, String> {
    let w = T::N;
    let mut v = vec![(T::none(), M::none(w))];
    ck!(st, same(&T::none(), &v[0].1) && same(&<T as TreePermutation>::empty(), &v[0].1), "width {w}: empty is {}", show(&T::none()));
    for n in 0..=w {
        // positions 0..n in order, the rest free; insert_from_back hands out n, n+1, ...
        let mut a = [0; 24];
        (0..n).for_each(|i| a[i] = i as u8);
        (n..w).for_each(|i| a[i] = (w - 1 - (i - n)) as u8);
        let m = M { n: n as u8, a };
        let p = T::sorted(n);
        ck!(st, same(&p, &m) && same(&<T as TreePermutation>::make_sorted(n), &m), "width {w}: make_sorted({n}) is {}", show(&p));
        v.push((p, m));
    }
    Ok(v)
}
/// All reachable states. With `raw`, two encodings of the same state count as two.
fn bfs<T: P>(st: &mut St, raw: bool) -> R {
    let mut seen: HashSet<(M, u128)> = HashSet::new();
    let mut todo = vec![];
    for (p, m) in starts::<T>(st)? {
        if seen.insert((m, if raw { p.raw() } else { 0 })) {
            todo.push((p, m));
        }
    }
    while let Some((p, m)) = todo.pop() {
        st.states += 1;
        look(st, &p, &m)?;
        sets(st, &p, &m)?;
        for o in m.ops(T::N) {
            let (q, k) = step(st, &p, &m, o)?;
            if seen.insert((k, if raw { q.raw() } else { 0 })) {
                todo.push((q, k));
            }
        }
    }
    Ok(())
}
/// States with n slots in use, of six shapes.
pub fn shapes<T: P>(st: &mut St, n: usize) -> Result<Vec<(T, M)>, String> {
    let w = T::N;
    let mut bases: Vec<(T, M)> = vec![];
    for shape in 0..6 {
        let (mut p, mut m) = (T::none(), M::none(w));
        let mut go = |o: O| -> R {
            let (q, k) = step(st, &p, &m, o)?;
            p = q;
            m = k;
            Ok(())
        };
        match shape {
            0 => (0..n).try_for_each(|i| go(O::Ins(i)))?,
            1 => (0..n).try_for_each(|_| go(O::Ins(0)))?,
            2 => (0..n).try_for_each(|i| go(O::InsIm(i / 2)))?,
            3 => {
                // full, then down from the middle
                (0..w).try_for_each(|i| go(O::Ins(i / 2)))?;
                (n..w).rev().try_for_each(|i| go(O::Rtb(i / 2)))?;
            }
            4 => {
                (0..w).try_for_each(|i| go(O::Ins(i * 2 / 3)))?;
                (n..w).rev().try_for_each(|i| go(O::Rem(i / 3)))?;
            }
            _ => {
                (0..n).try_for_each(|i| go(O::Ins(i / 3)))?;
                go(O::Rot(0, w / 2))?;
                go(O::Xch(0, w - 1))?;
            }
        }
        bases.push((p, m));
    }
    Ok(bases)
}
/// All pairs of operations from states of many shapes and every size.
fn pairs<T: P>(st: &mut St, lo: usize, hi: usize, deep: bool) -> R {
    let w = T::N;
    starts::<T>(st)?;
    for n in lo..hi.min(w + 1) {
        let bases = shapes::<T>(st, n)?;
        for (b, (p, m)) in bases.iter().enumerate() {
            st.states += 1;
            look(st, p, m)?;
            sets(st, p, m)?;
            for o in m.ops(w) {
                let (q, k) = step(st, p, m, o)?;
                st.states += 1;
                look(st, &q, &k)?;
                if deep || b % 2 == n % 2 {
                    for o in k.ops(w) {
                        step(st, &q, &k, o)?;
                    }
                }
            }
        }
    }
    Ok(())
}
/// Storing, loading and comparing-and-swapping through the atomic cell.
fn atomic(st: &mut St, _: bool) -> R {
    let mut all: Vec<(Permuter24, M)> = starts::<Permuter24>(st)?;
    for n in 0..24 {
        let (p, m) = all[n + 1];
        for o in [O::Ins(0), O::Ins(n), O::Rot(n, 24), O::Xch(0, 23)] {
            all.push(step(st, &p, &m, o)?);
        }
    }
    ck!(st, same(&Permuter24::default(), &M::none(24)) && same(&Permuter::<15>::default(), &M::none(15)) && same(&Permuter::<1>::default(), &M::none(1)), "a default permutation is not empty");
    ck!(st, same(&AtomicPermuter24::new().load(Acquire), &M::none(24)) && same(&AtomicPermuter24::default().load(Relaxed), &M::none(24)), "a new cell is not empty");
    for (a, ma) in &all {
        for (b, mb) in &all {
            let c = AtomicPermuter24::from_permuter(*a);
            st.trans += 8;
            st.states += 1;
            ck!(st, same(&c.load(SeqCst), ma) && c.load_raw(Acquire) == a.value(), "from_permuter({ma:?}) loads {}", show(&c.load(Acquire)));
            let equal = a == b;
            let r = c.compare_exchange(*b, *b, AcqRel, Acquire);
            ck!(st, if equal { r == Ok(*a) } else { r == Err(*a) }, "compare_exchange from {ma:?} expecting {mb:?} gives {r:?}");
            ck!(st, same(&c.load(Acquire), ma), "a failed compare_exchange changed {ma:?}");
            let r = c.compare_exchange(*a, *b, AcqRel, Acquire);
            ck!(st, r == Ok(*a) && same(&c.load(Acquire), mb), "compare_exchange {ma:?} to {mb:?} gives {r:?} and {}", show(&c.load(Acquire)));
            c.store(*a, Release);
            ck!(st, same(&c.load(Acquire), ma), "store {ma:?} after {mb:?} loads {}", show(&c.load(Acquire)));
            let r = c.compare_exchange_raw(b.value(), a.value(), AcqRel, Acquire);
            ck!(st, if equal { r == Ok(a.value()) } else { r == Err(a.value()) }, "compare_exchange_raw from {ma:?} expecting {mb:?}");
            c.store_raw(b.value(), Release);
            ck!(st, c.load_raw(Acquire) == b.value() && same(&c.load(Acquire), mb), "store_raw {mb:?} loads {}", show(&c.load(Acquire)));
            let mut k = 0;
            while c.compare_exchange_weak(*b, *a, AcqRel, Acquire).is_err() {
                k += 1;
                ck!(st, k < 1000, "compare_exchange_weak never succeeds from {mb:?}");
            }
            ck!(st, same(&c.load(Acquire), ma), "compare_exchange_weak {mb:?} to {ma:?} loads {}", show(&c.load(Acquire)));
            if !equal {
                ck!(st, c.compare_exchange_weak(*b, *b, AcqRel, Acquire) == Err(*a) && same(&c.load(Acquire), ma), "compare_exchange_weak from {ma:?} expecting {mb:?}");
            }
        }
    }
    Ok(())
}

pub fn parts(thorough: bool) -> Vec<Part> {
    let mut v = vec![];
    const R1: &str = "every encoding reachable from the initial and sorted permutations by any operations, every operation in each";
    const R2: &str = "every state (all orders, all sizes), every operation in each, reached through the operations";
    const R3: &str = "for every size, states of six shapes, all pairs of operations with all arguments";
    v.push(part("raw1", R1, |s, _| bfs::<Permuter<1>>(s, true)));
    v.push(part("raw2", R1, |s, _| bfs::<Permuter<2>>(s, true)));
    v.push(part("all3", R2, |s, _| bfs::<Permuter<3>>(s, false)));
    if thorough {
        v.push(part("raw3", R1, |s, _| bfs::<Permuter<3>>(s, true)));
        v.push(part("all9", R2, |s, _| bfs::<Permuter<9>>(s, false)));
    }
    v.push(part("all4", R2, |s, _| bfs::<Permuter<4>>(s, false)));
    v.push(part("all5", R2, |s, _| bfs::<Permuter<5>>(s, false)));
    v.push(part("all6", R2, |s, _| bfs::<Permuter<6>>(s, false)));
    v.push(part("all7", R2, |s, _| bfs::<Permuter<7>>(s, false)));
    v.push(part("all8", R2, |s, _| bfs::<Permuter<8>>(s, false)));
    macro_rules! pr {
        ($($n:literal)*) => { $( v.push(part(concat!("pairs", $n), R3, |s, t| pairs::<Permuter<$n>>(s, 0, 99, t))); )* };
    }
    pr!(9 10 11 12 13 14 15);
    for lo in 0..5 {
        v.push(part(format!("pairs24.{lo}"), R3, move |s, t| pairs::<Permuter24>(s, lo * 5, lo * 5 + 5, t)));
    }
    v.push(part("atomic", "all ordered pairs of 121 permutations through store, load and every compare-and-swap", atomic));
    v
}
