//! P08: leaves: splitting, suffixes, slots, links, ownership of values.
use crate::perm::{shapes, M};
use crate::slots::{values, Inline, Kind, D};
use crate::{ck, heap, part, Part, St, R};
use masstree::key::Key;
use masstree::leaf24::{LeafNode24, ModState24, KSUF_KEYLENX, LAYER_KEYLENX};
use masstree::leaf_trait::LayerCapableLeaf;
use masstree::{LeafValue, Permuter24, TreeLeafNode};
use seize::Collector;
use std::ptr::null_mut;

const W: usize = 24;
type L<K> = LeafNode24<K>;
trait Full: Kind {
    fn clone_of(l: &L<Self>, s: usize) -> Option<Self::Output>;
    fn assign(l: &L<Self>, s: usize, k: &Key<'_>, o: Self::Output, g: &seize::LocalGuard<'_>);
    fn find(l: &L<Self>) -> Leaf<'_, Self>
    where
        Self: Sized;
}
struct Leaf<'a, K: Kind>(&'a L<K>);
macro_rules! full {
    ($t:ty) => {
        impl Full for $t {
            fn clone_of(l: &L<Self>, s: usize) -> Option<Self::Output> {
                LayerCapableLeaf::try_clone_output(l, s)
            }
            fn assign(l: &L<Self>, s: usize, k: &Key<'_>, o: Self::Output, g: &seize::LocalGuard<'_>) {
                unsafe { LayerCapableLeaf::assign_from_key_arc(l, s, k, Some(o), g) }
            }
            fn find(l: &L<Self>) -> Leaf<'_, Self> {
                Leaf(l)
            }
        }
    };
}
full!(LeafValue<D>);
full!(Inline);

/// What a slot holds.
#[derive(Clone, Debug, PartialEq)]
enum E {
    Val(u8, u64),
    Suf(Vec<u8>, u64),
    Layer(usize),
}
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    ikey: u64,
    e: E,
}
fn layer(i: usize) -> *mut u8 {
    (0x9000 + i * 256) as *mut u8
}
fn value<K: Full>(id: u64) -> *mut u8 {
    K::output_consume_to_raw(K::into_output(K::fresh(id)))
}
fn put<K: Full>(l: &L<K>, s: usize, x: &Entry, g: &seize::LocalGuard<'_>) {
    l.set_ikey(s, x.ikey);
    match &x.e {
        E::Val(n, id) => {
            l.set_leaf_value_ptr(s, value::<K>(*id));
            l.set_keylenx(s, *n);
        }
        E::Suf(v, id) => {
            l.set_leaf_value_ptr(s, value::<K>(*id));
            unsafe { l.assign_ksuf(s, v, g) };
        }
        E::Layer(i) => {
            l.set_leaf_value_ptr(s, layer(*i));
            l.set_keylenx(s, LAYER_KEYLENX);
        }
    }
}
fn seen<K: Full>(st: &mut St, l: &L<K>, s: usize, x: &Entry, what: &dyn Fn() -> String) -> R {
    let Leaf(t) = K::find(l);
    ck!(st, l.ikey(s) == x.ikey && TreeLeafNode::ikey(t, s) == x.ikey, "{}: slot {s} has slice {:x} instead of {:x}", what(), l.ikey(s), x.ikey);
    let out = K::clone_of(l, s).map(|o| K::id(&o));
    let k = l.keylenx(s);
    ck!(st, TreeLeafNode::keylenx(t, s) == k && TreeLeafNode::leaf_value_ptr(t, s) == l.leaf_value_ptr(s) && l.load_slot_value(s) == l.leaf_value_ptr(s), "{}: slot {s} through the trait", what());
    let sf = |w: Option<&[u8]>| l.ksuf(s) == w && TreeLeafNode::ksuf(t, s) == w && l.ksuf_or_empty(s) == w.unwrap_or(&[]) && l.has_ksuf(s) == w.is_some() && TreeLeafNode::has_ksuf(t, s) == w.is_some();
    let ok = match &x.e {
        E::Val(n, id) => k == *n && out == Some(Some(*id)) && sf(None) && !l.is_layer(s) && !l.is_slot_empty(s),
        E::Suf(v, id) => k == KSUF_KEYLENX && out == Some(Some(*id)) && sf(Some(v)) && !l.is_layer(s) && !l.is_slot_empty(s),
        E::Layer(i) => k >= LAYER_KEYLENX && out.is_none() && sf(None) && l.is_layer(s) && TreeLeafNode::is_layer(t, s) && l.leaf_value_ptr(s) == layer(*i),
    };
    ck!(st, ok, "{}: slot {s} should hold {x:?}: keylenx {k}, value {out:?}, suffix {:?}, pointer {:?}", what(), l.ksuf(s), l.leaf_value_ptr(s));
    Ok(())
}
/// Entries of n positions: kinds rotate, slices come in groups.
fn entries(n: usize, pat: usize) -> Vec<Entry> {
    let group = [1, 1, 2, 10][pat % 4];
    (0..n)
        .map(|i| {
            let ikey = ((i / group) as u64 + 1).wrapping_mul(0x0A0A_0B0B_0C0C_0D0E) ^ if pat & 4 != 0 { 1 << 63 } else { 0 };
            let id = 100 + i as u64;
            let e = match (i + pat) % if pat >= 6 { 2 } else { 4 } {
                0 => E::Val((i % 9) as u8, id),
                1 => E::Suf((0..(i * 7 + pat) % 23).map(|b| (b * 5 + i) as u8).collect(), id),
                2 => E::Layer(i),
                _ => E::Suf(vec![i as u8; i + 1], id),
            };
            Entry { ikey, e }
        })
        .collect()
}
fn fill<K: Full>(p: Permuter24, m: &M, es: &[Entry], g: &seize::LocalGuard<'_>) -> Box<L<K>> {
    let l = L::<K>::new();
    for (i, x) in es.iter().enumerate() {
        put(&l, m.a[i] as usize, x, g);
    }
    l.set_permutation(p);
    l
}
/// Splits at every position of every size and shape, and moving everything.
fn splits<K: Full>(st: &mut St, _: bool) -> R {
    for n in 1..=W {
        for (sh, (p, m)) in shapes::<Permuter24>(st, n)?.into_iter().enumerate() {
            for pat in 0..8 {
                let es = entries(n, pat);
                for pos in 0..n {
                    let base = (heap::live(), values());
                    let bad = {
                        let c = Collector::new();
                        let r = split::<K>(st, &c, p, &m, &es, pos, pat);
                        drop(c);
                        r.map_err(|e| format!("{}: {n} entries, shape {sh}, pattern {pat}, split at {pos}: {e}", K::NAME))
                    };
                    bad?;
                    ck!(st, heap::live() == base.0 && values() == base.1, "{}: {n} entries, shape {sh}, pattern {pat}, split at {pos}: {} blocks and {} values outlive both leaves", K::NAME, heap::live().0 - base.0 .0, values() - base.1);
                }
            }
        }
    }
    Ok(())
}
/// pos 0 moves everything.
fn split<K: Full>(st: &mut St, c: &Collector, p: Permuter24, m: &M, es: &[Entry], pos: usize, pat: usize) -> R {
    let n = es.len();
    let g = c.enter();
    let l = fill::<K>(p, m, es, &g);
    st.states += 1;
    st.trans += 1;
    for (i, x) in es.iter().enumerate() {
        seen(st, &l, m.a[i] as usize, x, &|| "before".into())?;
    }
    let neighbour = L::<K>::new();
    let far = &*neighbour as *const L<K> as *mut L<K>;
    if pat % 2 == 1 {
        TreeLeafNode::set_next(&*l, far);
        neighbour.set_prev(&*l as *const L<K> as *mut L<K>);
    }
    if pat % 3 == 0 {
        l.version().mark_root();
    }
    let was = l.version().value();
    let mut vg = l.version().lock();
    vg.mark_split();
    let fresh = L::<K>::new();
    // what an unlocked reader may still be looking at
    let bag = l.ksuf_ptr();
    let kept: Vec<Option<Vec<u8>>> = if bag.is_null() { vec![] } else { (0..W).map(|s| unsafe { (*bag).get(s) }.map(<[u8]>::to_vec)).collect() };
    let (r, key, _) = unsafe {
        if pos == 0 {
            TreeLeafNode::split_all_to_right_preallocated(&*l, fresh, &g)
        } else {
            TreeLeafNode::split_into_preallocated(&*l, pos, fresh, &g)
        }
    };
    let lp = l.permutation();
    ck!(st, !TreeLeafNode::is_permutation_frozen(&*l) && !TreeLeafNode::is_permutation_frozen(&*r), "a permutation stays frozen");
    ck!(st, lp.size() == pos && l.size() == pos && l.is_empty() == (pos == 0) && !l.is_full(), "the left leaf keeps {} entries", lp.size());
    let rp = r.permutation();
    ck!(st, rp.size() == n - pos && r.size() == n - pos && r.is_full() == (n - pos == W), "the right leaf has {} entries", rp.size());
    let mut slots: Vec<usize> = (0..W).map(|i| lp.get(i)).collect();
    slots.sort_unstable();
    ck!(st, slots == (0..W).collect::<Vec<_>>(), "the left permutation is not one");
    slots = (0..W).map(|i| rp.get(i)).collect();
    slots.sort_unstable();
    ck!(st, slots == (0..W).collect::<Vec<_>>(), "the right permutation is not one");
    for i in 0..pos {
        ck!(st, lp.get(i) == m.a[i] as usize, "position {i} of the left leaf is slot {} instead of {}", lp.get(i), m.a[i]);
        seen(st, &l, lp.get(i), &es[i], &|| format!("left position {i}"))?;
    }
    for i in pos..n {
        seen(st, &r, rp.get(i - pos), &es[i], &|| format!("right position {}", i - pos))?;
        ck!(st, l.leaf_value_ptr(m.a[i] as usize).is_null(), "the left leaf still points to the value moved from slot {}", m.a[i]);
    }
    ck!(st, key == es[pos].ikey, "the separator is {key:x} instead of {:x}", es[pos].ikey);
    ck!(st, r.ikey_bound() == key && TreeLeafNode::ikey_bound(&*r) == key, "the right leaf's bound is {:x} instead of {key:x}", r.ikey_bound());
    ck!(st, r.version().is_split_locked() && r.version().is_leaf() && !r.version().is_deleted(), "the new leaf is not locked for the split");
    ck!(st, l.version().is_locked() && l.version().is_splitting(), "the split leaf is no longer locked");
    let own: Vec<Option<Vec<u8>>> = if bag.is_null() { vec![] } else { (0..W).map(|s| unsafe { (*bag).get(s) }.map(<[u8]>::to_vec)).collect() };
    ck!(st, own == kept, "a suffix an unlocked reader may be reading changed");
    r.version().unlock_for_split();
    ck!(st, !r.version().is_locked() && !r.version().is_splitting(), "the new leaf stays locked");
    unsafe { TreeLeafNode::link_sibling(&*l, &*r as *const L<K> as *mut L<K>) };
    let (lq, rq) = (&*l as *const L<K> as *mut L<K>, &*r as *const L<K> as *mut L<K>);
    let after = if pat % 2 == 1 { far } else { null_mut() };
    ck!(st, l.next_raw() == rq && l.safe_next() == rq && !l.next_is_marked() && r.prev() == lq && r.next_raw() == after && l.prev().is_null() && (after.is_null() || neighbour.prev() == rq), "the chain after the split");
    drop(vg);
    ck!(st, l.version().has_split(was) && !l.version().is_locked(), "readers of the left leaf cannot see the split");
    drop(g);
    Ok(())
}
/// All ways to group n keys by slice: the point chosen keeps groups whole.
fn points(st: &mut St, lo: usize, hi: usize, full_runs: bool) -> R {
    type K = Inline;
    for n in lo..=hi {
        let sh: Vec<(Permuter24, M)> = shapes::<Permuter24>(st, n)?;
        for cuts in 0..1u32 << (n - 1) {
            let (p, m) = &sh[(cuts as usize ^ n) % if full_runs { sh.len() } else { 2 }];
            let l = L::<K>::new();
            let mut keys = [0u64; W];
            let mut k = 10u64;
            let (mut run, mut longest) = (0, 0);
            for i in 0..n {
                if i > 0 && cuts >> (i - 1) & 1 == 1 {
                    k += 10;
                    run = 0;
                }
                run += 1;
                longest = longest.max(run);
                keys[i] = k;
                l.set_ikey(m.a[i] as usize, k);
            }
            l.set_permutation(*p);
            st.states += 1;
            let mut x = 5;
            while x <= k + 5 {
                let at = keys[..n].iter().filter(|y| **y < x).count();
                st.trans += 1;
                let r = TreeLeafNode::calculate_split_point(&*l, at, x);
                match r {
                    None => ck!(st, n < W || longest > 10, "no split point for slices {:?} and {x}", &keys[..n]),
                    Some(sp) => {
                        ck!(st, sp.pos > 0 && sp.pos < n && sp.split_ikey == keys[sp.pos], "split point {} with key {} for slices {:?} and {x}", sp.pos, sp.split_ikey, &keys[..n]);
                        ck!(st, keys[sp.pos - 1] != keys[sp.pos], "splitting at {} separates equal slices of {:?} (inserting {x})", sp.pos, &keys[..n]);
                    }
                }
                x += 5;
            }
        }
    }
    let l = L::<K>::new();
    ck!(st, TreeLeafNode::calculate_split_point(&*l, 0, 1).is_none(), "a split point in an empty leaf");
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum A {
    Assign(usize, usize),
    Clear(usize),
    Len(usize, u8),
    Compact(Option<usize>),
    Use(usize),
}
/// All sequences of d operations on the suffixes of three slots.
fn suffixes(st: &mut St, d: usize) -> R {
    type K = LeafValue<D>;
    const S: [usize; 3] = [0, 1, 23];
    let texts: [&[u8]; 4] = [b"a", b"ab", b"b", b"abcdefghi"];
    let probes: [&[u8]; 6] = [b"", b"a", b"ab", b"b", b"abcdefghi", b"abcdefgh"];
    let mut acts = vec![];
    for s in 0..3 {
        (0..4).for_each(|t| acts.push(A::Assign(s, t)));
        acts.extend([A::Clear(s), A::Len(s, 8), A::Len(s, LAYER_KEYLENX), A::Compact(Some(s)), A::Use(s)]);
    }
    acts.push(A::Compact(None));
    let mut w = vec![0usize; d];
    loop {
        let c = Collector::new();
        {
            let g = c.enter();
            let l = L::<K>::new();
            // what each of the slots' bags holds, its key length, and is it in use
            let mut bag: [Option<usize>; 3] = [None; 3];
            let mut len = [0u8; 3];
            let mut used = [false; 3];
            let mut old: Vec<(usize, [Option<usize>; 3])> = vec![];
            let did = || w.iter().map(|i| acts[*i]).collect::<Vec<_>>();
            for &i in &w {
                st.trans += 1;
                let bp = l.ksuf_ptr();
                if !bp.is_null() {
                    old.push((bp.addr(), bag));
                }
                match acts[i] {
                    A::Assign(s, t) => {
                        unsafe { l.assign_ksuf(S[s], texts[t], &g) };
                        bag[s] = Some(t);
                        len[s] = KSUF_KEYLENX;
                    }
                    A::Clear(s) => {
                        unsafe { l.clear_ksuf(S[s], &g) };
                        bag[s] = None;
                        len[s] = 0;
                    }
                    A::Len(s, k) => {
                        l.set_keylenx(S[s], k);
                        len[s] = k;
                    }
                    A::Compact(x) => {
                        unsafe { l.compact_ksuf(x.map(|s| S[s]), &g) };
                        for s in 0..3 {
                            if !used[s] || x == Some(s) {
                                bag[s] = None;
                            }
                        }
                    }
                    A::Use(s) => {
                        if !used[s] {
                            let mut p = l.permutation();
                            while !(0..p.size()).any(|i| p.get(i) == S[s]) {
                                // the slots in between come into use without a suffix
                                let _ = p.insert_from_back(0);
                            }
                            l.set_permutation(p);
                            for k in 0..3 {
                                used[k] = (0..p.size()).any(|i| p.get(i) == S[k]);
                            }
                        }
                    }
                }
            }
            st.states += 1;
            for s in 0..3 {
                let has = len[s] == KSUF_KEYLENX;
                let txt = if has { bag[s].map(|t| texts[t]) } else { None };
                let z = S[s];
                ck!(st, l.ksuf(z) == txt && l.ksuf_or_empty(z) == txt.unwrap_or(b"") && l.has_ksuf(z) == has && l.is_layer(z) == (len[s] >= LAYER_KEYLENX), "slot {z} has suffix {:?} instead of {txt:?} after {:?}", l.ksuf(z), did());
                l.set_ikey(z, 77);
                for q in probes {
                    let eq = txt == Some(q);
                    ck!(st, l.ksuf_equals(z, q) == eq && TreeLeafNode::ksuf_equals(&*l, z, q) == eq, "slot {z} equals {q:?} after {:?}", did());
                    let cmp = txt.map(|t| t.cmp(q));
                    ck!(st, l.ksuf_compare(z, q) == cmp && TreeLeafNode::ksuf_compare(&*l, z, q) == cmp, "slot {z} compares to {q:?} as {:?} after {:?}", l.ksuf_compare(z, q), did());
                    let m = if q.is_empty() { !has } else { eq };
                    ck!(st, l.ksuf_matches(z, 77, q) == m && !l.ksuf_matches(z, 78, q) && TreeLeafNode::ksuf_matches(&*l, z, 77, q) == m, "slot {z} matches {q:?} after {:?}", did());
                    for k in [0, 1, 7, 8, KSUF_KEYLENX] {
                        if (k == KSUF_KEYLENX) == q.is_empty() {
                            continue; // not a key's length and rest
                        }
                        let want = if len[s] >= LAYER_KEYLENX { -8 } else if has { i32::from(eq) } else { i32::from(len[s] == k && q.is_empty()) };
                        ck!(st, l.ksuf_match_result(z, k, q) == want && TreeLeafNode::ksuf_match_result(&*l, z, k, q) == want, "slot {z} against length {k} and {q:?} gives {} instead of {want} after {:?}", l.ksuf_match_result(z, k, q), did());
                    }
                }
            }
            ck!(st, l.has_ksuf_storage() != l.ksuf_ptr().is_null(), "has_ksuf_storage after {:?}", did());
            // bags replaced since are intact while a reader is pinned
            for (p, b) in &old {
                let o = unsafe { &*(*p as *const masstree::SuffixBag<24>) };
                for s in 0..3 {
                    ck!(st, o.get(S[s]) == b[s].map(|t| texts[t]), "the suffix of slot {} that readers were reading changed, after {:?}", S[s], did());
                }
            }
        }
        drop(c);
        let mut k = d;
        while k > 0 && w[k - 1] == acts.len() - 1 {
            w[k - 1] = 0;
            k -= 1;
        }
        if k == 0 {
            return Ok(());
        }
        w[k - 1] += 1;
    }
}
/// Every field of every slot, and the node's own fields.
fn fields<K: Full>(st: &mut St) -> R {
    for (l, root) in [(L::<K>::new(), false), (L::<K>::new_root(), true), (L::<K>::new_layer_root(), true), (TreeLeafNode::new_boxed(), false), (TreeLeafNode::new_root_boxed(), true), (TreeLeafNode::new_layer_root_boxed(), true)] {
        st.states += 1;
        ck!(st, l.version().is_leaf() && l.version().is_root() == root && !l.version().is_locked() && l.is_empty() && !l.is_full() && l.size() == 0, "{}: a new leaf, root {root}", K::NAME);
        ck!(st, l.next_raw().is_null() && l.prev().is_null() && l.parent().is_null() && l.ksuf_ptr().is_null() && l.modstate() == ModState24::Insert && !l.next_is_marked(), "{}: a new leaf's links", K::NAME);
        ck!(st, (0..W).all(|s| l.is_slot_empty(s) && l.keylenx(s) == 0 && l.ikey(s) == 0 && l.ksuf(s).is_none() && K::clone_of(&l, s).is_none()), "{}: a new leaf's slots", K::NAME);
    }
    let mut l = L::<K>::new();
    for s in 0..W {
        for k in 0..=255u8 {
            l.set_keylenx(s, k);
            st.states += 1;
            ck!(st, l.keylenx(s) == k && l.is_layer(s) == (k >= LAYER_KEYLENX) && l.has_ksuf(s) == (k == KSUF_KEYLENX), "{}: slot {s} with key length {k}", K::NAME);
            ck!(st, L::<K>::keylenx_is_layer(k) == (k >= LAYER_KEYLENX) && L::<K>::keylenx_has_ksuf(k) == (k == KSUF_KEYLENX) && TreeLeafNode::is_layer(&*l, s) == l.is_layer(s) && TreeLeafNode::has_ksuf(&*l, s) == l.has_ksuf(s), "{}: key length {k}", K::NAME);
            ck!(st, (0..W).all(|o| o == s || l.keylenx(o) == 0), "{}: another slot's key length", K::NAME);
        }
        l.set_keylenx(s, 0);
        unsafe { l.store_key_data_for_cas(s, u64::MAX - s as u64, 5) };
        ck!(st, l.ikey(s) == u64::MAX - s as u64 && l.keylenx(s) == 5 && l.load_all_ikeys()[s] == l.ikey(s) && (s == 0 || l.ikey_bound() == u64::MAX), "{}: key data of slot {s}", K::NAME);
        l.set_keylenx(s, 0);
        // compare-and-swap: current, expected and new of three pointers
        let ptrs = [null_mut(), layer(1), layer(2)];
        for cur in ptrs {
            for exp in ptrs {
                for new in ptrs {
                    for t in [false, true] {
                        l.set_leaf_value_ptr(s, cur);
                        let r = if t { TreeLeafNode::cas_slot_value(&*l, s, exp, new) } else { l.cas_slot_value(s, exp, new) };
                        st.trans += 1;
                        let now = if cur == exp { new } else { cur };
                        ck!(st, r == if cur == exp { Ok(()) } else { Err(cur) } && l.leaf_value_ptr(s) == now && l.is_slot_empty(s) == now.is_null(), "{}: slot {s}: {cur:?} expected {exp:?} new {new:?}", K::NAME);
                        let took = if t { TreeLeafNode::take_leaf_value_ptr(&*l, s) } else { l.take_leaf_value_ptr(s) };
                        ck!(st, took == now && l.is_slot_empty(s), "{}: slot {s}: taking {now:?}", K::NAME);
                    }
                }
            }
        }
    }
    let (a, b) = (L::<K>::new(), L::<K>::new());
    let q = |l: &L<K>| l as *const L<K> as *mut L<K>;
    for n in [null_mut(), q(&a), q(&b)] {
        l.set_next(n);
        st.states += 1;
        ck!(st, l.next_raw() == n && l.safe_next() == n && !l.next_is_marked(), "{}: next", K::NAME);
        l.wait_for_split();
        l.mark_next();
        ck!(st, l.safe_next() == n && l.next_is_marked() && l.next_raw().addr() == n.addr() | 1 && TreeLeafNode::next_is_marked(&*l) && TreeLeafNode::safe_next(&*l) == n, "{}: marked next", K::NAME);
        l.mark_next();
        ck!(st, l.safe_next() == n && l.next_is_marked(), "{}: next marked twice", K::NAME);
        l.unmark_next();
        ck!(st, l.next_raw() == n && !l.next_is_marked(), "{}: unmarked next", K::NAME);
        TreeLeafNode::mark_next(&*l);
        TreeLeafNode::unmark_next(&*l);
        ck!(st, TreeLeafNode::next_raw(&*l) == n, "{}: next through the trait", K::NAME);
        for p in [null_mut(), q(&a), q(&b)] {
            l.set_prev(p);
            l.set_parent(n.cast());
            ck!(st, l.prev() == p && TreeLeafNode::prev(&*l) == p && l.parent() == n.cast() && TreeLeafNode::parent(&*l) == n.cast() && l.next_raw() == n, "{}: prev or parent", K::NAME);
            for bound in [0u64, 5, u64::MAX] {
                l.set_ikey(0, bound);
                for x in [0u64, 4, 5, 6, u64::MAX] {
                    let want = p.is_null() || bound == x;
                    ck!(st, l.can_reuse_slot0(x) == want && TreeLeafNode::can_reuse_slot0(&*l, x) == want, "{}: slot 0 bound {bound} reused for {x}: {}", K::NAME, !want);
                }
            }
        }
    }
    l.make_layer_root();
    ck!(st, l.parent().is_null() && l.version().is_root(), "{}: make_layer_root", K::NAME);
    for m in [ModState24::Remove, ModState24::DeletedLayer, ModState24::Insert] {
        l.set_modstate(m);
        ck!(st, l.modstate() == m, "{}: modstate", K::NAME);
    }
    for n in 1..=W {
        for (p, m) in shapes::<Permuter24>(st, n)? {
            l.set_permutation(p);
            l.set_keylenx(m.a[0] as usize, 6);
            ck!(st, l.keylenx_bound() == 6 && l.size() == n && l.is_full() == (n == W) && l.permutation() == p && l.permutation_raw() == p.value(), "{}: permutation of {n}", K::NAME);
            l.set_keylenx(m.a[0] as usize, 0);
        }
    }
    l.set_permutation(Permuter24::empty());
    l.set_next(null_mut());
    Ok(())
}
/// New leaves linked behind any earlier one, in all orders.
fn links(st: &mut St, n: usize) -> R {
    type K = Inline;
    let mut w = vec![0usize; n];
    loop {
        let ls: Vec<Box<L<K>>> = (0..=n).map(|_| L::new()).collect();
        let q = |i: usize| &*ls[i] as *const L<K> as *mut L<K>;
        let mut chain = vec![0usize];
        for k in 0..n {
            let after = w[k];
            unsafe { TreeLeafNode::link_sibling(&*ls[after], q(k + 1)) };
            st.trans += 1;
            let at = chain.iter().position(|x| *x == after).unwrap();
            chain.insert(at + 1, k + 1);
            for (i, x) in chain.iter().enumerate() {
                let l = &ls[*x];
                ck!(st, l.next_raw() == chain.get(i + 1).map_or(null_mut(), |y| q(*y)) && l.prev() == if i == 0 { null_mut() } else { q(chain[i - 1]) }, "linking each new leaf behind {:?}: leaf {x} has the wrong neighbours", &w[..=k]);
            }
        }
        st.states += 1;
        let mut k = n;
        while k > 0 && w[k - 1] == k - 1 {
            w[k - 1] = 0;
            k -= 1;
        }
        if k == 0 {
            return Ok(());
        }
        w[k - 1] += 1;
    }
}
/// A key of every length put in every slot: found again, counted, released with the leaf.
fn assigns<K: Full>(st: &mut St) -> R {
    let bytes: Vec<u8> = (0..40).map(|i| (i * 37 + 200) as u8).collect();
    for len in 0..=33usize {
        for shift in 0..=len.saturating_sub(1) / 8 {
            for s in 0..W {
                let base = (heap::live(), values());
                {
                    let c = Collector::new();
                    let g = c.enter();
                    let l = L::<K>::new();
                    let mut k = Key::new(&bytes[..len]);
                    (0..shift).for_each(|_| k.shift());
                    let rest = &bytes[shift * 8..len];
                    let mut ik = [0u8; 8];
                    ik[..rest.len().min(8)].copy_from_slice(&rest[..rest.len().min(8)]);
                    let e = if rest.len() > 8 { E::Suf(rest[8..].to_vec(), 42) } else { E::Val(rest.len() as u8, 42) };
                    let x = Entry { ikey: u64::from_be_bytes(ik), e };
                    K::assign(&l, s, &k, K::into_output(K::fresh(42)), &g);
                    st.states += 1;
                    seen(st, &l, s, &x, &|| format!("{}: {len} bytes, {shift} shifts", K::NAME))?;
                    let o = K::clone_of(&l, s).unwrap();
                    ck!(st, K::refs(&o).is_none_or(|n| n == 2), "{}: {:?} owners of a stored value", K::NAME, K::refs(&o));
                    drop(l);
                    ck!(st, K::id(&o) == Some(42) && K::refs(&o).is_none_or(|n| n == 1), "{}: a value held by a caller after its leaf is gone", K::NAME);
                }
                ck!(st, heap::live() == base.0 && values() == base.1, "{}: {len} bytes in slot {s}: {} blocks outlive the leaf", K::NAME, heap::live().0 - base.0 .0);
            }
        }
    }
    Ok(())
}
/// Leaves with every mix of kinds in four slots, in use or not, released: each value once, no layer.
fn drops<K: Full>(st: &mut St) -> R {
    let slots = [0usize, 7, 22, 23];
    for mix in 0..5usize.pow(4) {
        for (n, by) in [(0, false), (2, false), (24, false), (0, true)] {
            let under = Box::new([7u64; 4]);
            let base = (heap::live(), values());
            {
                let c = Collector::new();
                let g = c.enter();
                let l = L::<K>::new();
                l.set_permutation(Permuter24::make_sorted(n));
                let mut left = vec![];
                for (i, s) in slots.iter().enumerate() {
                    let id = 10 + i as u64;
                    match mix / 5usize.pow(i as u32) % 5 {
                        0 => {}
                        1 => put(&l, *s, &Entry { ikey: id, e: E::Val(8, id) }, &g),
                        2 => put(&l, *s, &Entry { ikey: id, e: E::Suf(vec![1; 20], id) }, &g),
                        3 => {
                            l.set_leaf_value_ptr(*s, (&raw const *under).cast_mut().cast());
                            l.set_keylenx(*s, LAYER_KEYLENX);
                        }
                        _ => {
                            // taken out again: the taker owns it
                            put(&l, *s, &Entry { ikey: id, e: E::Val(3, id) }, &g);
                            left.push((id, l.take_leaf_value_ptr(*s)));
                        }
                    }
                }
                st.states += 1;
                if by {
                    drop(g);
                    drop(c);
                }
                drop(l);
                for (id, p) in left {
                    let o = unsafe { K::output_from_raw(p) };
                    ck!(st, K::id(&o) == Some(id), "{}: value {id} taken from a leaf was released with it (mix {mix})", K::NAME);
                    unsafe { K::cleanup_value_ptr(p) };
                }
            }
            ck!(st, heap::live() == base.0 && values() == base.1, "{}: mix {mix}: {} blocks, {} values left", K::NAME, heap::live().0 - base.0 .0, values() - base.1);
            ck!(st, *under == [7; 4], "{}: mix {mix}: a layer was released with the leaf above it", K::NAME);
        }
    }
    Ok(())
}
/// Replacing the permutation by compare-and-swap, in all combinations.
fn swaps(st: &mut St, _: bool) -> R {
    type K = Inline;
    let l = L::<K>::new();
    let mut ps = vec![];
    for n in [0, 1, 2, 12, 23, 24] {
        ps.extend(shapes::<Permuter24>(st, n)?.into_iter().map(|x| x.0));
    }
    for a in &ps {
        for b in &ps {
            for c in &ps {
                l.set_permutation(*a);
                let r = l.cas_permutation(*b, *c);
                st.states += 1;
                let now = if a == b { c } else { a };
                ck!(st, r == if a == b { Ok(()) } else { Err(*a) } && l.permutation() == *now && TreeLeafNode::permutation_wait(&*l) == *now && TreeLeafNode::permutation_try(&*l) == Ok(*now), "permutation {a:?}, expected {b:?}, new {c:?} gives {r:?} and {:?}", l.permutation());
            }
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    const SP: &str = "1 to 24 entries, six orders of slots, eight patterns of kinds and groups, every position and moving all";
    vec![
        part("splits shared", SP, splits::<LeafValue<D>>),
        part("splits inline", SP, splits::<Inline>),
        part("points", "all groupings of 1 to 17 keys (20 when thorough) by slice, six orders of slots, every slice and gap inserted", |s, t| points(s, 1, if t { 20 } else { 17 }, true)),
        part("points24", "all groupings of 24 keys by slice, every slice and gap inserted", |s, t| points(s, 24, 24, t)),
        part("suffixes", "all sequences of 4 of 28 operations (5 when thorough) on three slots: every query after them, earlier bags unchanged", |s, t| suffixes(s, if t { 5 } else { 4 })),
        part("fields shared", "every slot: all 256 key lengths, all compare-and-swaps of three pointers; links and marks", |s, _| fields::<LeafValue<D>>(s)),
        part("fields inline", "every slot: all 256 key lengths, all compare-and-swaps of three pointers; links and marks", |s, _| fields::<Inline>(s)),
        part("links", "all orders of linking 8 leaves (9 when thorough) behind one another", |s, t| links(s, if t { 9 } else { 8 })),
        part("assigns", "keys of 0 to 33 bytes at every shift in every slot, both kinds", |s, _| {
            assigns::<LeafValue<D>>(s)?;
            assigns::<Inline>(s)
        }),
        part("drops", "leaves with all mixes of five kinds in four slots, both kinds", |s, _| {
            drops::<LeafValue<D>>(s)?;
            drops::<Inline>(s)
        }),
        part("swaps", "all triples of 36 permutations through compare-and-swap", swaps),
    ]
}
