//! P10: version words, shared and single-threaded, against a model, by one thread.
use crate::{ck, part, Part, St, R};
use masstree::nodeversion::{NodeVersion, SingleThreadedNodeVersion as Single};
use std::time::Duration;

/// One step: a locked section that makes these marks, or a change of the root flag.
#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Section(&'static [M]),
    MarkRoot,
    MarkNonroot,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Insert,
    Split,
    Delete,
    Nonroot,
}
use M::*;
const OPS: [O; 9] = [
    O::MarkRoot,
    O::MarkNonroot,
    O::Section(&[]),
    O::Section(&[Insert]),
    O::Section(&[Split]),
    O::Section(&[Insert, Split]),
    O::Section(&[Delete]),
    O::Section(&[Nonroot]),
    O::Section(&[Split, Nonroot]),
];
/// What a version should be.
#[derive(Clone, Copy, Debug)]
struct Want {
    leaf: bool,
    root: bool,
    deleted: bool,
    sections: u64,
    splits: u64,
    /// sections since the last split
    inserts: u64,
}
impl Want {
    fn step(&mut self, o: O) {
        match o {
            O::MarkRoot => self.root = true,
            O::MarkNonroot => self.root = false,
            O::Section(ms) => {
                self.sections += 1;
                self.deleted |= ms.contains(&Delete);
                self.root &= !ms.contains(&Nonroot);
                if ms.contains(&Split) || ms.contains(&Delete) {
                    // a split never leaves a root behind
                    self.root = false;
                    self.splits += 1;
                    self.inserts = 0;
                } else {
                    self.inserts += 1;
                }
            }
        }
    }
}
struct Snap {
    w: Want,
    shared: u32,
    single: u32,
}
/// A shared and a single-threaded version in step.
struct Two {
    a: NodeVersion,
    /// not there when the word was set to something only a long history reaches
    b: Option<Single>,
    w: Want,
    way: u32,
}
impl Two {
    fn new(leaf: bool) -> Self {
        Self { a: NodeVersion::new(leaf), b: Some(Single::new(leaf)), w: Want { leaf, root: false, deleted: false, sections: 0, splits: 0, inserts: 0 }, way: 0 }
    }
    fn snap(&self) -> Snap {
        Snap { w: self.w, shared: self.a.stable(), single: self.b.as_ref().map_or(0, |b| b.stable()) }
    }
    fn step(&mut self, st: &mut St, o: O, look: bool) -> R {
        let before = self.a.stable();
        let was = self.w;
        match o {
            O::MarkRoot => {
                self.a.mark_root();
                self.b.iter_mut().for_each(|b| b.mark_root());
            }
            O::MarkNonroot => {
                self.a.mark_nonroot();
                self.b.iter_mut().for_each(|b| b.mark_nonroot());
            }
            O::Section(ms) => {
                self.way = (self.way + 1) % 4;
                let mut g = match self.way {
                    0 => self.a.lock(),
                    1 => self.a.lock_with_yield(),
                    2 => self.a.try_lock().ok_or("try_lock fails on a free lock")?,
                    _ => self.a.try_lock_for(Duration::from_secs(5)).ok_or("try_lock_for fails on a free lock")?,
                };
                let mut split = false;
                let (mut root, mut deleted) = (was.root, was.deleted);
                for k in 0..=ms.len() {
                    if look {
                        let a = &self.a;
                        ck!(st, a.is_locked() && a.is_dirty() && a.is_inserting() && a.has_changed_or_locked(before), "not seen as locked and being modified: {:#x} in {o:?} of {was:?}", a.value());
                        ck!(st, a.is_splitting() == split && a.is_split_locked() == split, "splitting: {:#x} in {o:?} of {was:?}", a.value());
                        ck!(st, a.has_changed(before) || !split, "a split in progress is not noticed: {before:#x} {:#x}", a.value());
                        ck!(st, a.is_leaf() == was.leaf && a.is_root() == root && a.is_deleted() == deleted, "flags: {:#x} after {k} marks of {o:?} of {was:?}", a.value());
                        ck!(st, a.try_lock().is_none(), "a held lock is taken again: {o:?} of {was:?}");
                        ck!(st, g.locked_value() == a.value(), "the guard's word is {:#x}, the version's {:#x}: {o:?} of {was:?}", g.locked_value(), a.value());
                    }
                    match ms.get(k) {
                        Some(Insert) => g.mark_insert(),
                        Some(Split) => {
                            g.mark_split();
                            split = true;
                        }
                        Some(Delete) => {
                            g.mark_deleted();
                            split = true;
                            deleted = true;
                        }
                        Some(Nonroot) => {
                            g.mark_nonroot();
                            root = false;
                        }
                        None => {}
                    }
                }
                drop(g);
                if let Some(b) = &mut self.b {
                    let mut g = b.lock();
                    for m in ms {
                        match m {
                            Insert => g.mark_insert(),
                            Split => g.mark_split(),
                            Delete => g.mark_deleted(),
                            Nonroot => g.mark_nonroot(),
                        }
                    }
                }
            }
        }
        self.w.step(o);
        st.trans += 1;
        Ok(())
    }
    fn look(&self, st: &mut St, snaps: &[Snap], did: &dyn Fn() -> String) -> R {
        let (a, w) = (&self.a, &self.w);
        ck!(st, !a.is_locked() && !a.is_dirty() && !a.is_inserting() && !a.is_splitting() && !a.is_split_locked(), "left locked or being modified: {:#x} after {}", a.value(), did());
        ck!(st, a.is_leaf() == w.leaf && a.is_root() == w.root && a.is_deleted() == w.deleted, "flags of {:#x} instead of {w:?} after {}", a.value(), did());
        let v = a.stable();
        ck!(st, v == a.value() && !a.has_changed(v) && !a.has_split(v) && !a.simple_has_split(v) && !a.has_changed_or_locked(v), "an untouched version reports a change after {}", did());
        if let Some(b) = &self.b {
            ck!(st, b.is_leaf() == w.leaf && b.is_root() == w.root && b.is_deleted() == w.deleted, "flags of the single-threaded version, {:#x}, instead of {w:?} after {}", b.stable(), did());
            let v = b.stable();
            ck!(st, !b.has_changed(v) && !b.has_split(v), "an untouched single-threaded version reports a change after {}", did());
        }
        for s in snaps {
            let ago = || format!("{:?} and now {w:?}, after {}", s.w, did());
            let (c, p) = (a.has_changed(s.shared), a.has_split(s.shared));
            ck!(st, a.simple_has_split(s.shared) == p && a.has_changed_or_locked(s.shared) == c, "the checks of one kind differ: {}", ago());
            if let Some(b) = &self.b {
                ck!(st, b.has_changed(s.single) == c && b.has_split(s.single) == p, "the two versions differ, {c} {p} shared: {}", ago());
            }
            let (n, m) = (w.sections - s.w.sections, w.splits - s.w.splits);
            let flags = (w.root, w.deleted) == (s.w.root, s.w.deleted);
            ck!(st, c || n == 0, "a completed section is not noticed: {}", ago());
            ck!(st, p || m == 0, "a completed split is not noticed: {}", ago());
            ck!(st, !(n == 0 && flags && (c || p)), "a change is invented: {}", ago());
            ck!(st, !(m == 0 && flags && w.inserts / 64 == s.w.inserts / 64 && p), "a split is invented: {}", ago());
        }
        Ok(())
    }
}
/// All sequences of len operations after so many sections and splits.
fn seqs(st: &mut St, leaf: bool, splits: u64, inserts: u64, len: usize) -> R {
    let total = OPS.len().pow(len as u32);
    for code in 0..total {
        let mut t = Two::new(leaf);
        // long histories are walked once and then cloned
        if splits + inserts > 0 {
            let (a, b, w) = PRE.with(|p| {
                let mut p = p.borrow_mut();
                if p.as_ref().is_none_or(|x| x.0 != (leaf, splits, inserts)) {
                    let mut t = Two::new(leaf);
                    for _ in 0..splits {
                        t.step(st, OPS[4], false)?;
                    }
                    for _ in 0..inserts {
                        t.step(st, OPS[3], false)?;
                    }
                    *p = Some(((leaf, splits, inserts), t));
                }
                let t = &p.as_ref().unwrap().1;
                Ok::<_, String>((t.a.clone(), t.b.clone(), t.w))
            })?;
            t = Two { a, b, w, way: code as u32 % 4 };
        }
        let mut snaps = vec![t.snap()];
        let mut c = code;
        let mut ops = vec![];
        for _ in 0..len {
            let o = OPS[c % OPS.len()];
            c /= OPS.len();
            ops.push(o);
            t.step(st, o, true)?;
            t.look(st, &snaps, &|| format!("{splits} splits, {inserts} inserts, {ops:?}"))?;
            snaps.push(t.snap());
        }
        st.states += 1;
    }
    Ok(())
}
type Pre = Option<((bool, u64, u64), Two)>;
thread_local!(static PRE: std::cell::RefCell<Pre> = const { std::cell::RefCell::new(None) });

/// Every unlocked word with every counter of inserts and boundary counters of splits.
fn words(st: &mut St, len: usize) -> R {
    let mut scs: Vec<u32> = (0..19).flat_map(|k| [(1 << k) - 1, 1 << k]).collect();
    scs.extend([(1 << 19) - 2, (1 << 19) - 1]);
    scs.sort_unstable();
    scs.dedup();
    for flags in 0..8u32 {
        for sc in &scs {
            for ic in 0..64 {
                let (leaf, root, deleted) = (flags & 4 != 0, flags & 2 != 0, flags & 1 != 0);
                let word = flags << 29 | sc << 9 | ic << 3;
                let total = OPS.len().pow(len as u32);
                for code in 0..total {
                    let a = NodeVersion::from_value(word);
                    ck!(st, a.value() == word && a.clone().value() == word, "from_value({word:#x}) gives {:#x}", a.value());
                    let mut t = Two { a, b: None, w: Want { leaf, root, deleted, sections: 0, splits: 0, inserts: u64::from(ic) }, way: code as u32 };
                    t.look(st, &[], &|| format!("nothing from {word:#x}"))?;
                    let mut snaps = vec![t.snap()];
                    let mut c = code;
                    for _ in 0..len {
                        t.step(st, OPS[c % OPS.len()], true)?;
                        c /= OPS.len();
                        t.look(st, &snaps, &|| format!("operations {code} from {word:#x}"))?;
                        snaps.push(t.snap());
                    }
                    st.states += 1;
                }
                let t = NodeVersion::from_value(word);
                let g = t.lock();
                let s = NodeVersion::new_for_split(&t);
                ck!(st, s.is_locked() && s.is_splitting() && s.is_split_locked() && s.is_leaf() == leaf && !s.is_root() && !s.is_deleted(), "new_for_split of {word:#x} gives {:#x}", s.value());
                ck!(st, s.try_lock().is_none(), "a new sibling's lock is free, of {word:#x}");
                let v = s.value();
                s.unlock_for_split();
                ck!(st, !s.is_locked() && !s.is_dirty() && s.is_leaf() == leaf && !s.is_root() && !s.is_deleted() && s.has_split(v) && s.has_changed(v), "released sibling of {word:#x} is {:#x}", s.value());
                drop(g);
                st.trans += 3;
            }
        }
    }
    Ok(())
}
fn fresh(st: &mut St) -> R {
    for (v, leaf) in [(NodeVersion::new(true), true), (NodeVersion::new(false), false), (NodeVersion::default(), true)] {
        ck!(st, v.is_leaf() == leaf && !v.is_root() && !v.is_deleted() && !v.is_locked() && !v.is_dirty(), "new version {:#x}", v.value());
        ck!(st, std::ptr::eq(v.as_ptr(), &v), "as_ptr");
    }
    for (v, leaf) in [(Single::new(true), true), (Single::new(false), false), (Single::default(), true)] {
        ck!(st, v.is_leaf() == leaf && !v.is_root() && !v.is_deleted(), "new single-threaded version {:#x}", v.stable());
    }
    st.states += 6;
    Ok(())
}

pub fn parts(thorough: bool) -> Vec<Part> {
    let mut v = vec![part("fresh", "new versions", |st, _| fresh(st))];
    let len = if thorough { 7 } else { 5 };
    for leaf in [true, false] {
        v.push(part(format!("seqs:{leaf}:0:0"), "all sequences from a new version", move |st, _| seqs(st, leaf, 0, 0, len)));
        for (s, i) in [(0, 61), (0, 63), (0, 127), (0, 64 * 64 - 2), (1, 62), (3, 0), ((1 << 18) - 2, 0), ((1 << 19) - 2, 0), ((1 << 19) - 1, 62)] {
            v.push(part(format!("seqs:{leaf}:{s}:{i}"), "all sequences after a history of splits and inserts", move |st, _| seqs(st, leaf, s, i, len - 1)));
        }
    }
    v.push(part("words", "sequences from every counter of inserts and boundary counters of splits, with all flags", |st, t| words(st, if t { 3 } else { 2 })));
    v
}
