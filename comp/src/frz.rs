//! P02: freezing a permutation, and the guard that thaws it.
use crate::perm::{same, shapes, show, starts, M};
use crate::{ck, panics, part, Part, St, R};
use masstree::leaf24::LeafNode24;
use masstree::leaf_trait::FreezeGuardOps;
use masstree::permuter::Permuter;
use masstree::{Freeze24Utils, LeafValue, Permuter24, TreeLeafNode, TreePermutation};

type L = LeafNode24<LeafValue<u64>>;

fn all24(st: &mut St) -> Result<Vec<(Permuter24, M)>, String> {
    let mut v = starts::<Permuter24>(st)?;
    for n in 0..=24 {
        v.extend(shapes::<Permuter24>(st, n)?);
    }
    Ok(v)
}
/// Freezing an encoding: seen by is_frozen, changes the last position only, undone exactly.
fn raw24(st: &mut St, _: bool) -> R {
    for (p, m) in all24(st)? {
        st.states += 1;
        let r = p.value();
        st.trans += 3;
        ck!(st, !Freeze24Utils::is_frozen(r) && !<Permuter24 as TreePermutation>::is_frozen_raw(r), "{m:?} counts as frozen");
        let z = Freeze24Utils::freeze_raw(r);
        ck!(st, z == <Permuter24 as TreePermutation>::freeze_raw(r), "{m:?}: two ways of freezing differ");
        ck!(st, Freeze24Utils::is_frozen(z) && <Permuter24 as TreePermutation>::is_frozen_raw(z), "{m:?} frozen does not count as frozen");
        let q = Permuter24::from_value(z);
        ck!(st, q.size() == p.size() && (0..23).all(|i| q.get(i) == p.get(i)), "freezing {m:?} changed it to {}", show(&q));
        ck!(st, Freeze24Utils::is_frozen(Freeze24Utils::freeze_raw(z)), "freezing {m:?} twice thaws it");
        let s = Freeze24Utils::get_slot23(r);
        ck!(st, s == p.get(23) as u128, "{m:?}: get_slot23 gives {s}");
        ck!(st, Freeze24Utils::unfreeze_raw(z, s) == r, "{m:?}: thawing gives {}", show(&Permuter24::from_value(Freeze24Utils::unfreeze_raw(z, s))));
        q.debug_assert_valid();
    }
    // what differs from a frozen encoding in any one bit of the last position is not frozen
    let z = Freeze24Utils::freeze_raw(Permuter24::empty().value());
    for b in 0..128 {
        let f = Freeze24Utils::is_frozen(z ^ (1u128 << b));
        st.states += 1;
        ck!(st, f != (120..125).contains(&b), "bit {b} of a frozen encoding flipped: is_frozen says {f}");
        ck!(st, !Freeze24Utils::is_frozen(1u128 << b), "the encoding with only bit {b} counts as frozen");
    }
    Ok(())
}
fn small<const W: usize>(st: &mut St) -> R {
    for n in 0..=W {
        for (p, m) in shapes::<Permuter<W>>(st, n)? {
            st.states += 1;
            st.trans += 1;
            let r = p.value();
            ck!(st, !<Permuter<W> as TreePermutation>::is_frozen_raw(r), "width {W}: {m:?} counts as frozen");
            let z = <Permuter<W> as TreePermutation>::freeze_raw(r);
            ck!(st, <Permuter<W> as TreePermutation>::is_frozen_raw(z), "width {W}: {m:?} frozen does not count as frozen");
            ck!(st, Permuter::<W>::from_value(z).size() == n, "width {W}: freezing {m:?} changed its size");
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Freeze,
    Drop,
    Publish(usize),
    Forget,
    Set(usize),
    Cas(usize, usize),
    CasNoFreeze(usize, usize),
}
/// Every sequence of up to `d` actions on one leaf that is locked and marked as splitting.
fn guard(st: &mut St, d: usize, ps: &[(Permuter24, M)]) -> R {
    let mut acts = vec![A::Freeze, A::Drop, A::Forget];
    for i in 0..ps.len() {
        acts.push(A::Publish(i));
        acts.push(A::Set(i));
        for j in 0..ps.len() {
            acts.push(A::Cas(i, j));
            acts.push(A::CasNoFreeze(i, j));
        }
    }
    let mut word = vec![0usize; d];
    loop {
        let leaf: Box<L> = L::new();
        {
            let mut g = leaf.version().lock();
            g.mark_split();
            // the permutation the leaf shows, whether frozen, and by whom
            let mut cur = 0;
            leaf.set_permutation(ps[0].0);
            let mut held = None;
            let mut frozen = false;
            let mut did = vec![];
            for &w in &word {
                let a = acts[w];
                did.push(a);
                st.trans += 1;
                match a {
                    A::Freeze => {
                        if frozen {
                            if held.is_none() || did.len() == d {
                                ck!(st, panics(|| leaf.freeze_permutation().set_active(false)), "freezing a frozen leaf is accepted after {did:?}");
                            }
                        } else {
                            let h = leaf.freeze_permutation();
                            ck!(st, same(&h.snapshot(), &ps[cur].1) && h.snapshot_raw() == ps[cur].0.value(), "the guard's snapshot is {} after {did:?}", show(&h.snapshot()));
                            ck!(st, FreezeGuardOps::snapshot(&h) == h.snapshot() && FreezeGuardOps::snapshot_raw(&h) == h.snapshot_raw(), "the guard's snapshots differ after {did:?}");
                            held = Some((h, cur));
                            frozen = true;
                        }
                    }
                    A::Drop => {
                        if let Some((h, at)) = held.take() {
                            drop(h);
                            cur = at;
                            frozen = false;
                        }
                    }
                    A::Forget => {
                        if let Some((mut h, _)) = held.take() {
                            h.set_active(false);
                            drop(h);
                        }
                    }
                    A::Publish(i) => {
                        if let Some((h, _)) = held.take() {
                            leaf.unfreeze_set_permutation(h, ps[i].0);
                            cur = i;
                            frozen = false;
                        }
                    }
                    A::Set(i) => {
                        if held.is_none() {
                            leaf.set_permutation(ps[i].0);
                            cur = i;
                            frozen = false;
                        }
                    }
                    A::Cas(i, j) => {
                        let r = TreeLeafNode::cas_permutation_raw(&*leaf, ps[i].0, ps[j].0);
                        if !frozen && ps[i].0 == ps[cur].0 {
                            ck!(st, r.is_ok(), "compare-and-swap of the current permutation fails after {did:?}");
                            cur = j;
                        } else {
                            let Err(e) = r else { return Err(format!("compare-and-swap succeeds on a {} permutation after {did:?}", if frozen { "frozen" } else { "different" })) };
                            ck!(st, e.is_frozen() == frozen, "failed compare-and-swap says frozen {} after {did:?}", e.is_frozen());
                            ck!(st, e.current() == e.current && e.current.value() == leaf.permutation_raw(), "failed compare-and-swap reports {} after {did:?}", show(&e.current));
                        }
                    }
                    A::CasNoFreeze(i, j) => {
                        if frozen {
                            if did.len() == d {
                                ck!(st, panics(|| leaf.cas_permutation(ps[i].0, ps[j].0)), "cas_permutation does not refuse a frozen leaf after {did:?}");
                            }
                        } else {
                            let r = leaf.cas_permutation(ps[i].0, ps[j].0);
                            let good = ps[i].0 == ps[cur].0;
                            ck!(st, r == if good { Ok(()) } else { Err(ps[cur].0) }, "cas_permutation gives {r:?} after {did:?}");
                            if good {
                                cur = j;
                            }
                        }
                    }
                }
                st.states += 1;
                let raw = leaf.permutation_raw();
                ck!(st, Freeze24Utils::is_frozen(raw) == frozen && leaf.is_permutation_frozen() == frozen && leaf.is_perm_frozen() == frozen, "frozen is {} instead of {frozen} after {did:?}", !frozen);
                ck!(st, TreeLeafNode::permutation_raw(&*leaf) == raw, "the raw permutations differ after {did:?}");
                let t = TreeLeafNode::permutation_try(&*leaf);
                if frozen {
                    ck!(st, t.is_err(), "permutation_try hands out a frozen permutation after {did:?}");
                } else {
                    ck!(st, t.is_ok_and(|p| same(&p, &ps[cur].1)) && leaf.permutation() == ps[cur].0 && TreeLeafNode::permutation(&*leaf) == ps[cur].0, "the leaf shows {} after {did:?}", show(&leaf.permutation()));
                    ck!(st, same(&TreeLeafNode::permutation_wait(&*leaf), &ps[cur].1), "permutation_wait differs after {did:?}");
                    ck!(st, leaf.size() == ps[cur].0.size() && leaf.is_empty() == (leaf.size() == 0) && leaf.is_full() == (leaf.size() == 24), "size after {did:?}");
                }
            }
            // a guard that is still active thaws the leaf when it goes
            if let Some((h, at)) = held.take() {
                drop(h);
                ck!(st, leaf.permutation_raw() == ps[at].0.value(), "dropping the guard leaves {} after {did:?}", show(&leaf.permutation()));
            }
            leaf.set_permutation(ps[0].0);
        }
        let mut k = 0;
        while k < d && word[k] == acts.len() - 1 {
            word[k] = 0;
            k += 1;
        }
        if k == d {
            return Ok(());
        }
        word[k] += 1;
    }
}
/// A panic while the leaf is frozen thaws it; freezing needs the lock and the split mark.
fn unwind(st: &mut St, _: bool) -> R {
    for (p, m) in all24(st)? {
        let leaf: Box<L> = L::new();
        leaf.set_permutation(p);
        st.states += 1;
        st.trans += 4;
        ck!(st, panics(|| leaf.freeze_permutation().set_active(false)), "freezing works without the lock");
        ck!(st, leaf.permutation_raw() == p.value(), "a refused freeze changed {m:?}");
        {
            let _g = leaf.version().lock();
            ck!(st, panics(|| leaf.freeze_permutation().set_active(false)), "freezing works without the split mark");
            ck!(st, leaf.permutation_raw() == p.value(), "a refused freeze changed {m:?}");
        }
        ck!(st, panics(|| {
            let mut g = leaf.version().lock();
            g.mark_split();
            let _h = leaf.freeze_permutation();
            if leaf.is_permutation_frozen() {
                panic!("a writer fails in the middle of a split");
            }
        }), "the leaf did not look frozen under the guard, {m:?}");
        ck!(st, leaf.permutation_raw() == p.value() && !leaf.version().is_locked(), "a panic under the guard leaves {} and the lock {}", show(&leaf.permutation()), leaf.version().is_locked());
        {
            let mut g = leaf.version().lock();
            g.mark_split();
            let h = leaf.freeze_permutation();
            ck!(st, h.snapshot_raw() == p.value(), "freezing after a panic finds {}", show(&h.snapshot()));
        }
        ck!(st, leaf.permutation_raw() == p.value(), "dropping the guard leaves {}", show(&leaf.permutation()));
        leaf.set_permutation(Permuter24::empty());
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    vec![
        part("encoding24", "every permutation of six shapes and all sizes frozen, recognised and thawed; every single-bit change of a frozen one", raw24),
        part("encoding14", "every permutation of six shapes and all sizes, width 14, frozen and recognised", |s, _| small::<14>(s)),
        part("encoding15", "the same for width 15", |s, _| small::<15>(s)),
        part("encoding7", "the same for width 7", |s, _| small::<7>(s)),
        part("guard", "all sequences of 5 (6 when thorough) of 19 actions (freeze, drop, publish, forget, store, compare-and-swap) on one leaf, two permutations", |s, t| {
            let v = starts::<Permuter24>(s)?;
            let q = shapes::<Permuter24>(s, 24)?;
            guard(s, if t { 6 } else { 5 }, &[v[7], q[3]])
        }),
        part("guard3", "all sequences of 4 (5 when thorough) of 31 actions, three permutations", |s, t| {
            let v = starts::<Permuter24>(s)?;
            let q = shapes::<Permuter24>(s, 23)?;
            guard(s, if t { 5 } else { 4 }, &[v[0], q[2], q[4]])
        }),
        part("unwind", "every permutation of six shapes and all sizes: refused without lock or mark, restored when a writer panics", unwind),
    ]
}
