//! P04: inner nodes against sorted lists of keys and children.
use crate::{ck, part, Part, St, R};
use masstree::internode::InternodeNode;
use masstree::ksearch::{upper_bound_internode, upper_bound_internode_direct, upper_bound_internode_generic};
use masstree::{LeafValue, TreeInternode};
use std::ptr::null_mut;

type V = LeafValue<u64>;
type I<const W: usize> = InternodeNode<V, W>;
/// Keys and children: child i is left of key i.
#[derive(Clone, Debug, PartialEq)]
struct M {
    k: Vec<u64>,
    c: Vec<usize>,
}
fn fake(i: usize) -> *mut u8 {
    (0x1000 + i * 64) as *mut u8
}
fn key(i: usize) -> u64 {
    // spread over the whole range, on both sides of 2^63
    (i as u64 + 1).wrapping_mul(u64::MAX / 42)
}
fn read<const W: usize>(n: &I<W>) -> M {
    let s = n.nkeys();
    M { k: (0..s).map(|i| n.ikey(i)).collect(), c: (0..=s).map(|i| n.child(i).addr()).collect() }
}
fn look<const W: usize>(st: &mut St, n: &I<W>, m: &M, what: &dyn Fn() -> String) -> R {
    let g = read(n);
    ck!(st, g == *m, "width {W}: {} gives {g:x?} instead of {m:x?}", what());
    let s = m.k.len();
    ck!(st, n.size() == s && n.is_empty() == (s == 0) && n.is_full() == (s >= W) && TreeInternode::nkeys(n) == s && TreeInternode::is_full(n) == (s >= W), "width {W}: size of {m:x?}");
    for i in 0..=s {
        ck!(st, TreeInternode::child(n, i).addr() == m.c[i] && (i == s || TreeInternode::ikey(n, i) == m.k[i]), "width {W}: entry {i} through the trait");
    }
    n.debug_assert_invariants();
    Ok(())
}
fn build<const W: usize>(m: &M, height: u32) -> Box<I<W>> {
    let n = I::<W>::new(height);
    n.set_child(0, m.c[0] as *mut u8);
    for i in 0..m.k.len() {
        n.assign(i, m.k[i], m.c[i + 1] as *mut u8);
    }
    n.set_nkeys(m.k.len() as u8);
    n
}
fn model(n: usize) -> M {
    M { k: (0..n).map(|i| key(2 * i + 1)).collect(), c: (0..=n).map(|i| fake(i).addr()).collect() }
}
/// Every size and position: insert, assign, set, shift.
fn edit<const W: usize>(st: &mut St) -> R {
    for h in [0, 1, 5] {
        for (n, root) in [(I::<W>::new(h), false), (I::<W>::new_root(h), true), (TreeInternode::new_boxed(h), false), (TreeInternode::new_root_boxed(h), true)] {
            st.states += 1;
            ck!(st, n.height() == h && n.children_are_leaves() == (h == 0) && n.nkeys() == 0 && n.is_root() == root && n.parent().is_null() && n.child(0).is_null(), "width {W}: a new node of height {h}, root {root}");
            ck!(st, !n.version().is_leaf() && !n.version().is_locked() && TreeInternode::is_root(&*n) == root && TreeInternode::height(&*n) == h, "width {W}: a new node's version");
            TreeInternode::prefetch(&*n);
            ck!(st, format!("{n:?}").contains("height"), "width {W}: debug output");
            n.set_parent(fake(7));
            ck!(st, n.parent() == fake(7), "width {W}: parent");
        }
        let n = I::<W>::default();
        ck!(st, n.height() == 0 && n.nkeys() == 0 && !n.version().is_leaf() && !n.version().is_locked() && !n.is_root() && n.parent().is_null() && n.child(0).is_null(), "width {W}: a default node");
        let l = I::<W>::new(h);
        let g = l.version().lock();
        let n = I::<W>::new_for_split(l.version(), h);
        ck!(st, n.height() == h && n.version().is_locked() && n.version().is_splitting() && !n.version().is_leaf() && !n.is_root() && n.nkeys() == 0, "width {W}: a new node for a split");
        drop(g);
    }
    for n in 0..=W {
        let m = model(n);
        let b = build::<W>(&m, 0);
        st.states += 1;
        look(st, &b, &m, &|| format!("assigning {n} keys"))?;
        for p in 0..n {
            let mut t = m.clone();
            let b = build::<W>(&m, 0);
            t.k[p] += 1;
            b.set_ikey(p, t.k[p]);
            st.trans += 2;
            look(st, &b, &t, &|| format!("set_ikey({p}) of {n}"))?;
            t.c[p] = fake(77).addr();
            b.set_child(p, fake(77));
            look(st, &b, &t, &|| format!("set_child({p}) of {n}"))?;
            t.k[p] += 1;
            t.c[p + 1] = fake(78).addr();
            b.assign(p, t.k[p], fake(78));
            look(st, &b, &t, &|| format!("assign({p}) of {n}"))?;
        }
        for p in 0..=n {
            if n == W {
                break;
            }
            for inherent in [true, false] {
                let mut t = m.clone();
                let b = build::<W>(&m, 0);
                t.k.insert(p, key(2 * p));
                t.c.insert(p + 1, fake(50).addr());
                if inherent {
                    b.insert_key_and_child(p, key(2 * p), fake(50));
                } else {
                    TreeInternode::insert_key_and_child(&*b, p, key(2 * p), fake(50));
                }
                st.trans += 1;
                look(st, &b, &t, &|| format!("insert_key_and_child({p}) into {n}"))?;
            }
        }
        // copies count entries (key and the child right of it)
        for src in 0..=n {
            for count in 0..=n - src {
                for dst in 0..=W - count {
                    let d = I::<W>::new(0);
                    (0..W).for_each(|i| d.assign(i, 1 + i as u64, fake(100 + i)));
                    d.set_child(0, fake(99));
                    d.shift_from(dst, &b, src, count);
                    d.set_nkeys(W as u8);
                    let mut t = M { k: (0..W).map(|i| 1 + i as u64).collect(), c: (0..=W).map(|i| fake(99 + i).addr()).collect() };
                    for i in 0..count {
                        t.k[dst + i] = m.k[src + i];
                        t.c[dst + 1 + i] = m.c[src + 1 + i];
                    }
                    st.trans += 1;
                    ck!(st, read(&d) == t, "width {W}: shift_from({dst}, {src}, {count}) gives {:x?} instead of {t:x?}", read(&d));
                }
            }
        }
        look(st, &b, &m, &|| "copying from it".to_string())?;
        if n < W {
            b.inc_nkeys();
            ck!(st, b.nkeys() == n + 1, "width {W}: inc_nkeys from {n}");
        }
    }
    Ok(())
}
/// Splitting a full node at every insert position and height, with real child nodes above the leaves.
fn split<const W: usize>(st: &mut St) -> R {
    for h in 0..3u32 {
        for p in 0..=W {
            for inherent in [true, false] {
                let kids: Vec<Box<I<W>>> = (0..W + 2).map(|_| I::<W>::new(h.saturating_sub(1))).collect();
                let kid = |i: usize| if h == 0 { fake(i) } else { std::ptr::from_ref(&*kids[i]).cast_mut().cast::<u8>() };
                let mut m = model(W);
                m.c = (0..=W).map(|i| kid(i).addr()).collect();
                let b = build::<W>(&m, h);
                let bp = std::ptr::from_ref(&*b).cast_mut().cast::<u8>();
                kids.iter().for_each(|k| k.set_parent(bp));
                let _g = b.version().lock();
                let mut r = I::<W>::new_for_split(b.version(), 9);
                let rp: *mut I<W> = &mut *r;
                let x = key(2 * p);
                let (pop, left) = unsafe {
                    if inherent { b.split_into(&mut *rp, rp, p, x, kid(W + 1)) } else { TreeInternode::split_into(&*b, &mut *rp, rp, p, x, kid(W + 1)) }
                };
                st.trans += 1;
                st.states += 1;
                let mut t = m.clone();
                t.k.insert(p, x);
                t.c.insert(p + 1, kid(W + 1).addr());
                let (ml, mr) = (read(&b), read(&*r));
                let mut ks = ml.k.clone();
                ks.push(pop);
                ks.extend(&mr.k);
                let mut cs = ml.c.clone();
                cs.extend(&mr.c);
                ck!(st, ks == t.k && cs == t.c, "width {W}: split with a new key at {p} gives {ml:x?}, {pop:x}, {mr:x?}");
                ck!(st, left == ml.c.contains(&kid(W + 1).addr()), "width {W}: split with a new key at {p} says it went left: {left}");
                ck!(st, W < 3 || (!ml.k.is_empty() && !mr.k.is_empty() && ml.k.len() < W && mr.k.len() < W), "width {W}: split with a new key at {p} leaves {} and {} keys", ml.k.len(), mr.k.len());
                ck!(st, r.height() == h && b.height() == h, "width {W}: heights after a split are {} and {}", b.height(), r.height());
                b.debug_assert_invariants();
                r.debug_assert_invariants();
                if h > 0 {
                    for c in &ml.c {
                        let k = unsafe { &*(*c as *const I<W>) };
                        ck!(st, k.parent() == bp || *c == kid(W + 1).addr(), "width {W}, height {h}: split with a new key at {p}: a left child's parent changed");
                    }
                    for c in &mr.c {
                        let k = unsafe { &*(*c as *const I<W>) };
                        ck!(st, k.parent() == rp.cast(), "width {W}, height {h}: split with a new key at {p}: a right child's parent was not set");
                    }
                }
            }
        }
    }
    Ok(())
}
struct Tree<const W: usize> {
    root: *mut I<W>,
    all: Vec<*mut I<W>>,
}
impl<const W: usize> Drop for Tree<W> {
    fn drop(&mut self) {
        self.all.iter().for_each(|p| drop(unsafe { Box::from_raw(*p) }));
    }
}
/// Grows a tree of inner nodes by the popup keys of leaf splits, the way the map does.
fn grow<const W: usize>(keys: &[u64]) -> Tree<W> {
    let first = Box::into_raw(I::<W>::new_root(0));
    let mut t = Tree { root: first, all: vec![first] };
    unsafe {
        (*first).set_child(0, fake(0));
        for (n, k) in keys.iter().enumerate() {
            let mut node = t.root;
            while !(*node).children_are_leaves() {
                node = (*node).child(upper_bound_internode_direct(*k, &*node)).cast();
            }
            let (mut k, mut c) = (*k, fake(n + 1));
            loop {
                let p = (*node).find_insert_position(k);
                if !(*node).is_full() {
                    (*node).insert_key_and_child(p, k, c);
                    if !(*node).children_are_leaves() {
                        (*c.cast::<I<W>>()).set_parent(node.cast());
                    }
                    break;
                }
                let g = (*node).version().lock();
                let r = Box::into_raw(I::<W>::new_for_split((*node).version(), (*node).height()));
                t.all.push(r);
                let (pop, left) = (*node).split_into(&mut *r, r, p, k, c);
                if !(*node).children_are_leaves() {
                    (*c.cast::<I<W>>()).set_parent(if left { node.cast() } else { r.cast() });
                }
                (*r).version().unlock_for_split();
                drop(g);
                if (*node).parent().is_null() {
                    let up = Box::into_raw(I::<W>::new_root((*node).height() + 1));
                    t.all.push(up);
                    (*up).set_child(0, node.cast());
                    (*up).insert_key_and_child(0, pop, r.cast());
                    (*node).set_parent(up.cast());
                    (*r).set_parent(up.cast());
                    t.root = up;
                    break;
                }
                (*r).set_parent((*node).parent());
                node = (*node).parent().cast();
                k = pop;
                c = r.cast();
            }
        }
    }
    t
}
fn flat<const W: usize>(n: *mut I<W>, up: *mut u8, ks: &mut Vec<u64>, cs: &mut Vec<usize>) -> R {
    let n = unsafe { &*n };
    if n.parent() != up {
        return Err(format!("width {W}: a node's parent pointer is wrong"));
    }
    for i in 0..=n.nkeys() {
        if n.children_are_leaves() {
            cs.push(n.child(i).addr());
        } else {
            flat::<W>(n.child(i).cast(), std::ptr::from_ref(n).cast_mut().cast(), ks, cs)?;
        }
        if i < n.nkeys() {
            ks.push(n.ikey(i));
        }
    }
    Ok(())
}
/// Trees grown by every order of n keys.
fn orders<const W: usize>(st: &mut St, n: usize) -> R {
    let mut perm: Vec<usize> = (0..n).collect();
    let mut c = vec![0; n];
    let mut i = 0;
    let one = |st: &mut St, perm: &[usize]| -> R {
        let keys: Vec<u64> = perm.iter().map(|i| key(*i)).collect();
        let t = grow::<W>(&keys);
        st.states += 1;
        st.trans += n as u64;
        let (mut ks, mut cs) = (vec![], vec![]);
        flat::<W>(t.root, null_mut(), &mut ks, &mut cs).map_err(|e| format!("{e}, order {perm:?}"))?;
        // child j + 1 was inserted with key perm[j], so it sits right of it
        let want: Vec<usize> = std::iter::once(fake(0).addr()).chain((0..n).map(|k| fake(perm.iter().position(|x| *x == k).unwrap() + 1).addr())).collect();
        ck!(st, ks == (0..n).map(key).collect::<Vec<_>>() && cs == want, "width {W}: keys in order {perm:?} give {ks:x?} and children {cs:x?}");
        for k in 0..n {
            for d in [-1i64, 0, 1] {
                let x = key(k).wrapping_add_signed(d);
                let mut node = t.root;
                let got = loop {
                    let r = unsafe { &*node };
                    let u = upper_bound_internode_direct(x, r);
                    ck!(st, u == upper_bound_internode(x, r) && u == upper_bound_internode_generic(x, r), "width {W}: searches disagree, order {perm:?}, key {x:x}");
                    if r.children_are_leaves() {
                        break r.child(u).addr();
                    }
                    node = r.child(u).cast();
                };
                ck!(st, got == want[k + usize::from(d >= 0)], "width {W}: key {x:x} is routed to the wrong child, order {perm:?}");
            }
        }
        Ok(())
    };
    one(st, &perm)?;
    while i < n {
        if c[i] < i {
            if i % 2 == 0 { perm.swap(0, i) } else { perm.swap(c[i], i) }
            one(st, &perm)?;
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
    Ok(())
}
/// Width 15: growth by many keys in orders of twelve shapes.
fn tall(st: &mut St, n: usize) -> R {
    for shape in 0..12usize {
        for n in [17, 40, 130, n] {
            let mul = [1, n - 1, 3, 7, 11, 13, 17, 19, 23, 29, 31, 37][shape];
            let mut seen = vec![false; n];
            let mut ord = vec![];
            for i in 0..n {
                let mut x = i * mul % n;
                while seen[x] {
                    x = (x + 1) % n;
                }
                seen[x] = true;
                ord.push(x);
            }
            let step = u64::MAX / (n as u64 + 2);
            let keys: Vec<u64> = ord.iter().map(|x| (*x as u64 + 1) * step).collect();
            let t = grow::<15>(&keys);
            st.states += 1;
            st.trans += n as u64;
            let (mut ks, mut cs) = (vec![], vec![]);
            flat::<15>(t.root, null_mut(), &mut ks, &mut cs)?;
            let mut at = vec![0; n];
            ord.iter().enumerate().for_each(|(j, x)| at[*x] = j);
            let want: Vec<usize> = std::iter::once(fake(0).addr()).chain(at.iter().map(|j| fake(j + 1).addr())).collect();
            ck!(st, ks == (0..n as u64).map(|x| (x + 1) * step).collect::<Vec<_>>() && cs == want, "width 15: {n} keys in order shape {shape} give a wrong tree");
        }
    }
    Ok(())
}
pub fn parts(thorough: bool) -> Vec<Part> {
    let mut v = vec![];
    macro_rules! each {
        ($($n:literal)*) => { $(
            v.push(part(concat!("edit", $n), "every size: insert, assign, set and copy at every position and length", |s, _| edit::<$n>(s)));
            v.push(part(concat!("split", $n), "a full node split with a new key at every position, heights 0 to 2", |s, _| split::<$n>(s)));
        )* };
    }
    each!(1 2 3 4 5 7 8 11 14 15);
    const T: &str = "trees of inner nodes grown by all orders of 9 keys (10 when thorough): contents, parents, routing of every key and its neighbours";
    let n = if thorough { 10 } else { 9 };
    v.push(part("orders2", T, move |s, _| orders::<2>(s, n)));
    v.push(part("orders3", T, move |s, _| orders::<3>(s, n)));
    v.push(part("orders4", T, move |s, _| orders::<4>(s, n)));
    v.push(part("orders5", T, move |s, _| orders::<5>(s, n)));
    v.push(part("tall", "width 15: trees of 17 to 2,000 keys in twelve order shapes", |s, t| tall(s, if t { 20_000 } else { 2_000 })));
    v
}
