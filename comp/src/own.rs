//! P09: the allocator owns every node until it is retired or torn down.
use crate::slots::{values, Inline, Kind, D};
use crate::{ck, heap, part, Part, St, R};
use masstree::internode::InternodeNode;
use masstree::leaf24::LeafNode24;
use masstree::{LeafValue, NodeAllocator24, NodeAllocatorGeneric, Permuter24, SeizeAllocator24};
use seize::Collector;

type L<K> = LeafNode24<K>;
type I<K> = InternodeNode<K, 15>;
type A<K> = SeizeAllocator24<K>;

#[derive(Clone, Copy, Debug)]
enum O {
    /// by the allocator, or tracked after the fact; through the generic trait or not
    Leaf { track: bool, generic: bool },
    Inode { track: bool, generic: bool },
    /// the oldest, a middle one or the newest
    RetireLeaf(u8, bool),
    RetireInode(u8, bool),
    Unpin,
    Teardown(bool),
}
fn ops() -> Vec<O> {
    let mut v = vec![O::Unpin, O::Teardown(false), O::Teardown(true)];
    for generic in [false, true] {
        for track in [false, true] {
            v.push(O::Leaf { track, generic });
            v.push(O::Inode { track, generic });
        }
    }
    for w in 0..3 {
        v.push(O::RetireLeaf(w, w == 1));
        v.push(O::RetireInode(w, w != 1));
    }
    v
}
fn leaf<K: Kind>(id: u64) -> Box<L<K>> {
    let l = L::<K>::new();
    l.set_leaf_value_ptr(3, K::output_consume_to_raw(K::into_output(K::fresh(id))));
    l.set_keylenx(3, 4);
    l.set_ikey(3, id);
    l.set_permutation(Permuter24::make_sorted(4));
    l
}
fn inode<K: Kind>(id: u64) -> Box<I<K>> {
    let n = I::<K>::new(1);
    n.set_ikey(0, id);
    n.set_nkeys(1);
    n
}
fn run<K: Kind>(st: &mut St, all: &[O], w: &[usize], from: usize) -> Result<usize, String> {
    let c = Collector::new();
    let a = A::<K>::new();
    let mut g = c.enter();
    let (mut ls, mut ns): (Vec<(*mut L<K>, u64)>, Vec<(*mut I<K>, u64)>) = (vec![], vec![]);
    // retired and pinned: must stay readable
    let (mut rl, mut rn) = (ls.clone(), ns.clone());
    let did = |k: usize| w[..=k].iter().map(|i| all[*i]).collect::<Vec<_>>();
    let pick = |n: usize, w: u8| [0, n / 2, n - 1][w as usize];
    let vals = values();
    let mut id = 0;
    for (k, i) in w.iter().enumerate() {
        st.trans += 1;
        id += 1;
        match all[*i] {
            O::Leaf { track, generic } => {
                let b = leaf::<K>(id);
                let at = (&raw const *b).cast_mut();
                let p = match (track, generic) {
                    (false, false) => a.alloc_leaf24(b),
                    (false, true) => NodeAllocatorGeneric::alloc_leaf(&a, b),
                    (true, _) => Box::into_raw(b),
                };
                match (track, generic) {
                    (true, false) => a.track_leaf24(p),
                    (true, true) => NodeAllocatorGeneric::track_leaf(&a, p),
                    _ => {}
                }
                ck!(st, p == at, "{}: an allocated leaf moved, after {:?}", K::NAME, did(k));
                ls.push((p, id));
            }
            O::Inode { track, generic } => {
                let b = inode::<K>(id);
                let at = (&raw const *b).cast_mut();
                let p = match (track, generic) {
                    (false, false) => a.alloc_internode24(b),
                    (false, true) => NodeAllocatorGeneric::<K, L<K>>::alloc_internode_erased(&a, Box::into_raw(b).cast()).cast(),
                    (true, _) => Box::into_raw(b),
                };
                match (track, generic) {
                    (true, false) => a.track_internode24(p),
                    (true, true) => NodeAllocatorGeneric::<K, L<K>>::track_internode_erased(&a, p.cast()),
                    _ => {}
                }
                ck!(st, p == at, "{}: an allocated inner node moved, after {:?}", K::NAME, did(k));
                ns.push((p, id));
            }
            O::RetireLeaf(w, generic) => {
                if ls.is_empty() {
                    return Ok(k);
                }
                let x = ls.remove(pick(ls.len(), w));
                unsafe {
                    if generic {
                        NodeAllocatorGeneric::retire_leaf(&a, x.0, &g);
                    } else {
                        a.retire_leaf24(x.0, &g);
                    }
                }
                rl.push(x);
            }
            O::RetireInode(w, generic) => {
                if ns.is_empty() {
                    return Ok(k);
                }
                let x = ns.remove(pick(ns.len(), w));
                unsafe {
                    if generic {
                        NodeAllocatorGeneric::<K, L<K>>::retire_internode_erased(&a, x.0.cast(), &g);
                    } else {
                        a.retire_internode24(x.0, &g);
                    }
                }
                rn.push(x);
            }
            O::Unpin => {
                drop(g);
                g = c.enter();
                rl.clear();
                rn.clear();
            }
            O::Teardown(generic) => {
                if ls.is_empty() && ns.is_empty() {
                    return Ok(k);
                }
                let root = ls.first().map_or(std::ptr::null_mut(), |x| x.0.cast());
                if generic {
                    NodeAllocatorGeneric::<K, L<K>>::teardown_tree(&a, root);
                } else {
                    a.teardown_tree24(root);
                }
                ls.clear();
                ns.clear();
                if K::SHARED && rl.is_empty() {
                    // retired leaves that are no longer pinned may still be waiting
                    ck!(st, values() - vals <= w[..k].iter().filter(|i| matches!(all[**i], O::RetireLeaf(..))).count() as i64, "{}: {} values survive a teardown, after {:?}", K::NAME, values() - vals, did(k));
                }
            }
        }
        if k < from {
            continue;
        }
        st.states += 1;
        ck!(st, a.leaf_count() == ls.len() && a.internode_count() == ns.len(), "{}: {} leaves and {} inner nodes are counted instead of {} and {}, after {:?}", K::NAME, a.leaf_count(), a.internode_count(), ls.len(), ns.len(), did(k));
        for (p, id) in ls.iter().chain(&rl) {
            let l = unsafe { &**p };
            let v = l.leaf_value_ptr(3);
            ck!(st, l.ikey(3) == *id && l.size() == 4 && !v.is_null() && l.keylenx(3) == 4 && K::id(&unsafe { K::output_from_raw(v) }) == Some(*id), "{}: leaf {id} was released or changed, after {:?}", K::NAME, did(k));
        }
        for (p, id) in ns.iter().chain(&rn) {
            let n = unsafe { &**p };
            ck!(st, n.ikey(0) == *id && n.nkeys() == 1 && n.height() == 1, "{}: inner node {id} was released or changed, after {:?}", K::NAME, did(k));
        }
    }
    drop(g);
    // the allocator may go before or after the collector
    if w.len() % 2 == 0 {
        drop(c);
    } else {
        drop(a);
    }
    Ok(w.len())
}
/// All sequences of d operations.
fn seqs<K: Kind>(st: &mut St, d: usize) -> R {
    let all = ops();
    for n in [d - 1, d] {
        let mut w = vec![0usize; n];
        let mut from = 0;
        loop {
            let base = (heap::live(), values());
            let cut = run::<K>(st, &all, &w, from)?;
            ck!(st, heap::live() == base.0 && values() == base.1, "{}: {} blocks and {} values are never released after {:?}", K::NAME, heap::live().0 - base.0 .0, values() - base.1, w[..cut].iter().map(|i| all[*i]).collect::<Vec<_>>());
            let mut k = if cut < n { cut + 1 } else { n };
            while k > 0 && w[k - 1] == all.len() - 1 {
                k -= 1;
            }
            if k == 0 {
                break;
            }
            w[k - 1] += 1;
            from = k - 1;
            w[k..].fill(0);
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    const W: &str = "all sequences of 4 and 5 of the 17 operations (5 and 6 when thorough): counts, contents of live and pinned nodes, everything released once";
    vec![
        part("shared", W, |s, t| seqs::<LeafValue<D>>(s, if t { 6 } else { 5 })),
        part("inline", W, |s, t| seqs::<Inline>(s, if t { 6 } else { 5 })),
    ]
}
