//! Programs on one leaf: the permutation word with its freeze protocol, and the chain of siblings.
use crate::ffi::violation;
use crate::model::Model;
use crate::GHOST;
use masstree::leaf_trait::FreezeGuardOps;
use masstree::{is_marked, unmark_ptr, Freeze24Utils, LeafNode24, LeafValue, Permuter24, TreeLeafNode, TreePermutation};
use std::cell::UnsafeCell;
use std::ptr::null_mut;

type L = LeafNode24<LeafValue<u64>>;
fn leaf() -> Box<L> {
    <L as TreeLeafNode<LeafValue<u64>>>::new_boxed()
}

/// What a finished call did to the permutation word (a register).
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    None,
    /// permutation_try: the value, or u128::MAX when it said "frozen"
    Try(u128),
    Wait(u128),
    Frozen(bool),
    Raw(u128),
    Cas(u128, u128, u128, bool),
    Freeze(u128),
    Store(u128),
}
use K::*;
#[derive(Clone, Copy, Debug)]
struct Ev {
    tid: u8,
    start: u32,
    end: u32,
    k: K,
}
const NONE: Ev = Ev { tid: 0, start: 0, end: 0, k: None };
const MAX: usize = 24;
struct Hist {
    n: usize,
    clock: u32,
    ev: [Ev; MAX],
    hash: u64,
}
/// Bookkeeping shared by the explored threads. Every access is volatile: the engine runs one thread at a time
/// and switches only before an atomic operation.
struct Book(*mut Hist);
impl Book {
    fn new() -> Book {
        Book(Box::into_raw(Box::new(Hist { n: 0, clock: 0, ev: [NONE; MAX], hash: 0 })))
    }
    fn reset(&self) {
        unsafe {
            (&raw mut (*self.0).n).write_volatile(0);
            (&raw mut (*self.0).clock).write_volatile(0);
            (&raw mut (*self.0).hash).write_volatile(0xcbf2_9ce4_8422_2325);
        }
    }
    fn tick(&self) -> u32 {
        unsafe {
            let p = &raw mut (*self.0).clock;
            let c = p.read_volatile() + 1;
            p.write_volatile(c);
            c
        }
    }
    fn saw(&self, x: u64) {
        unsafe {
            let p = &raw mut (*self.0).hash;
            p.write_volatile((p.read_volatile() ^ x).wrapping_mul(0x1000_0000_01b3));
        }
    }
    fn rec(&self, tid: usize, start: u32, k: K) {
        unsafe {
            let p = &raw mut (*self.0).n;
            let n = p.read_volatile();
            assert!(n < MAX);
            (&raw mut (*self.0).ev[n]).write_volatile(Ev { tid: tid as u8, start, end: self.tick(), k });
            p.write_volatile(n + 1);
        }
        let h = |x: u128| (x ^ (x >> 64)) as u64;
        self.saw(match k {
            None => 0,
            Try(x) => 1 ^ h(x),
            Wait(x) => 2 ^ h(x),
            Raw(x) => 3 ^ h(x),
            Frozen(b) => 4 + u64::from(b),
            Cas(_, _, c, ok) => 6 + u64::from(ok) ^ h(c),
            Freeze(x) => 8 ^ h(x),
            Store(x) => 9 ^ h(x),
        });
    }
    fn events(&self) -> Vec<Ev> {
        unsafe { (0..(&raw const (*self.0).n).read_volatile()).map(|i| (&raw const (*self.0).ev[i]).read_volatile()).collect() }
    }
}
/// Is there an order of the events, respecting each thread's order (and real time), in which every one is
/// explained by a register that holds the permutation word?
fn explained(ev: &[Ev], init: u128, last: u128, realtime: bool) -> bool {
    fn step(k: K, s: u128) -> Option<u128> {
        let fz = Freeze24Utils::is_frozen(s);
        match k {
            None => Some(s),
            Try(u128::MAX) => fz.then_some(s),
            Try(x) => (!fz && x == s).then_some(s),
            Wait(x) => (!fz && x == s).then_some(s),
            Frozen(b) => (b == fz).then_some(s),
            Raw(x) => (x == s).then_some(s),
            Cas(e, n, _, true) => (e == s && !fz).then_some(n),
            Cas(e, _, c, false) => (c == s && s != e).then_some(s),
            Freeze(x) => (!fz && x == s).then(|| Freeze24Utils::freeze_raw(s)),
            Store(x) => Some(x),
        }
    }
    fn go(ev: &[Ev], done: u32, s: u128, last: u128, rt: bool, seen: &mut std::collections::HashSet<(u32, u128)>) -> bool {
        if done == (1 << ev.len()) - 1 {
            return s == last;
        }
        if !seen.insert((done, s)) {
            return false;
        }
        for (i, e) in ev.iter().enumerate() {
            if done >> i & 1 == 1 {
                continue;
            }
            let early = ev.iter().enumerate().any(|(j, f)| done >> j & 1 == 0 && j != i && f.end < e.start && (rt || f.tid == e.tid));
            if early {
                continue;
            }
            if let Some(n) = step(e.k, s) {
                if go(ev, done | 1 << i, n, last, rt, seen) {
                    return true;
                }
            }
        }
        false
    }
    go(ev, 0, init, last, realtime, &mut Default::default())
}

/// V04: one letter per operation
///  t try, w wait, z is frozen?, r raw word; i optimistic insert, o the same with the permutation of the start,
///  F freeze and publish a smaller permutation, G freeze and publish a larger one, D freeze and drop the guard,
///  P freeze and unwind; S store under the lock without freezing
struct Perm {
    th: Vec<Vec<char>>,
    checks: u32,
    full: usize,
    sh: Option<Box<Leaf1>>,
    b: Book,
    init: u128,
    out: u64,
}
struct Leaf1 {
    l: Box<L>,
    /// what an inserter writes before it publishes the slot
    data: [UnsafeCell<u64>; 24],
}
impl Perm {
    fn sh(&self) -> &'static Leaf1 {
        unsafe { &*(self.sh.as_deref().unwrap() as *const Leaf1) }
    }
    /// everything published must be readable
    fn look(&self, p: Permuter24) {
        for i in 0..p.size() {
            let s = p.get(i);
            if unsafe { *self.sh().data[s].get() } == 0 {
                violation("publication", "a slot is in the permutation but what its inserter wrote first is not visible");
            }
        }
    }
    fn insert(&self, tid: usize, p: Permuter24) {
        let Leaf1 { l, data } = self.sh();
        if p.size() >= 24 {
            return;
        }
        let slot = p.back();
        let mine = (0x1000 * tid) as *mut u8;
        if l.cas_slot_value(slot, null_mut(), mine).is_err() {
            self.b.saw(77);
            return;
        }
        unsafe { *data[slot].get() = tid as u64 };
        let mut n = p;
        let _ = n.insert_from_back(0);
        let st = self.b.tick();
        match TreeLeafNode::cas_permutation_raw(&**l, p, n) {
            Ok(()) => self.b.rec(tid, st, Cas(p.value(), n.value(), 0, true)),
            Err(e) => {
                let c = TreePermutation::value(&e.current());
                self.b.rec(tid, st, Cas(p.value(), n.value(), c, false));
                if e.is_frozen() != Freeze24Utils::is_frozen(c) {
                    violation("frozen-flag", "a failed compare-and-swap misreports whether the permutation is frozen");
                }
                if l.cas_slot_value(slot, mine, null_mut()).is_err() {
                    violation("claim", "a slot that was claimed changed hands before it was published");
                }
            }
        }
    }
    fn section(&self, tid: usize, c: char) {
        let l = &self.sh().l;
        let g = TreeLeafNode::version(&**l).lock();
        let mut g = g;
        if c == 'S' {
            g.mark_insert();
            let st = self.b.tick();
            let p = TreeLeafNode::permutation(&**l);
            // nobody but an optimistic inserter may interfere; publish by compare-and-swap as well
            self.b.rec(tid, st, Raw(p.value()));
            let mut n = p;
            if p.size() > 0 {
                n.remove_to_back(0);
                let st = self.b.tick();
                match TreeLeafNode::cas_permutation_raw(&**l, p, n) {
                    Ok(()) => self.b.rec(tid, st, Cas(p.value(), n.value(), 0, true)),
                    Err(e) => self.b.rec(tid, st, Cas(p.value(), n.value(), TreePermutation::value(&e.current()), false)),
                }
            }
            return;
        }
        g.mark_split();
        let st = self.b.tick();
        let f = TreeLeafNode::freeze_permutation(&**l);
        let snap = TreePermutation::value(&f.snapshot());
        self.b.rec(tid, st, Freeze(snap));
        if FreezeGuardOps::snapshot_raw(&f) != snap {
            violation("snapshot", "snapshot() and snapshot_raw() differ");
        }
        self.look(f.snapshot());
        // while it is frozen nothing else can change the word
        let st = self.b.tick();
        let fz = TreeLeafNode::is_permutation_frozen(&**l);
        self.b.rec(tid, st, Frozen(fz));
        if !fz {
            violation("thawed", "the permutation is not frozen while the freeze guard lives");
        }
        let p = f.snapshot();
        match c {
            'F' | 'G' => {
                let mut n = p;
                if c == 'F' {
                    n.set_size(p.size() / 2);
                } else if p.size() < 24 {
                    // the slot may be claimed by an inserter, whose publication must then fail
                    let _ = n.insert_from_back(0);
                    if self.sh().l.cas_slot_value(p.back(), null_mut(), 0x9000 as *mut u8).is_ok() {
                        unsafe { *self.sh().data[p.back()].get() = 9 };
                    } else {
                        n = p;
                    }
                }
                let st = self.b.tick();
                TreeLeafNode::unfreeze_set_permutation(&**l, f, n);
                self.b.rec(tid, st, Store(n.value()));
            }
            'D' => {
                let st = self.b.tick();
                drop(f);
                self.b.rec(tid, st, Store(snap));
            }
            _ => {
                let st = self.b.tick();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _f = f;
                    std::panic::resume_unwind(Box::new(()));
                }));
                assert!(r.is_err());
                self.b.rec(tid, st, Store(snap));
            }
        }
        drop(g);
    }
}
impl Model for Perm {
    fn threads(&self) -> usize {
        self.th.len()
    }
    fn setup(&mut self) {
        std::mem::forget(self.sh.take());
        self.b.reset();
        let l = leaf();
        let data: [UnsafeCell<u64>; 24] = Default::default();
        let mut p = Permuter24::empty();
        for _ in 0..self.full {
            let s = p.back();
            let _ = p.insert_from_back(p.size() / 2);
            l.cas_slot_value(s, null_mut(), 0xff00 as *mut u8).unwrap();
            unsafe { *data[s].get() = 5 };
        }
        TreeLeafNode::set_permutation(&*l, p);
        self.init = p.value();
        self.sh = Some(Box::new(Leaf1 { l, data }));
    }
    fn body(&mut self, tid: usize) {
        let me: *const Perm = self;
        let me = unsafe { &*me };
        let l = &me.sh().l;
        for &c in &me.th[tid - 1] {
            let st = me.b.tick();
            match c {
                't' => match TreeLeafNode::permutation_try(&**l) {
                    Ok(p) => {
                        me.b.rec(tid, st, Try(p.value()));
                        me.look(p);
                    }
                    Err(()) => me.b.rec(tid, st, Try(u128::MAX)),
                },
                'w' => {
                    let p = TreeLeafNode::permutation_wait(&**l);
                    me.b.rec(tid, st, Wait(p.value()));
                    me.look(p);
                }
                'z' => {
                    let f = TreeLeafNode::is_perm_frozen(&**l);
                    me.b.rec(tid, st, Frozen(f));
                }
                'r' => {
                    let r = TreeLeafNode::permutation_raw(&**l);
                    me.b.rec(tid, st, Raw(r));
                }
                'i' => {
                    let p = TreeLeafNode::permutation_try(&**l);
                    me.b.rec(tid, st, Try(p.map_or(u128::MAX, |p| p.value())));
                    if let Ok(p) = p {
                        me.insert(tid, p);
                    }
                }
                'o' => me.insert(tid, Permuter24::from_value(me.init)),
                c => me.section(tid, c),
            }
        }
    }
    fn finish(&mut self) -> Result<(), (String, String)> {
        let l = &self.sh().l;
        let last = TreeLeafNode::permutation_raw(&**l);
        let ev = self.b.events();
        self.out = unsafe { (&raw const (*self.b.0).hash).read_volatile() };
        let f = |b: bool, k: &str, m: String| if b { Ok(()) } else { Err((k.to_string(), m)) };
        f(!Freeze24Utils::is_frozen(last), "thawed", "the permutation is still frozen in the end".into())?;
        f(explained(&ev, self.init, last, self.checks & GHOST != 0), "no-explanation", format!("no order of the calls explains their results: start {:x}, {:x?}, end {last:x}", self.init, ev.iter().map(|e| (e.tid, e.start, e.end, e.k)).collect::<Vec<_>>()))?;
        let v = TreeLeafNode::version(&**l);
        f(!v.is_locked() && !v.is_dirty(), "lock-bits", "the leaf is still locked or dirty".into())?;
        // the values are not real pointers
        for s in 0..24 {
            l.set_leaf_value_ptr(s, null_mut());
        }
        drop(self.sh.take());
        Ok(())
    }
    fn outcome(&self) -> u64 {
        self.out
    }
}

/// V05: one letter per operation
///  a/b link a new leaf after the first/second leaf, c after the leaf this thread linked last, holding the lock
///  of that leaf as a split does (link_sibling requires it)
///  f/g walk forward from the first/second leaf, h the same by raw next pointers, p walk backward from the last leaf
///  m mark and unmark the next pointer of the first leaf under its lock, q wait for a split of the first leaf
struct Chain {
    th: Vec<Vec<char>>,
    checks: u32,
    b: Book,
    out: u64,
}
const NL: usize = 12;
struct State {
    l: [*mut L; NL],
    /// clock when leaf i was about to be linked, and when that was done
    begun: [u32; NL],
    done: [u32; NL],
    after: [usize; NL],
    n: usize,
}
static mut ST: State = State { l: [null_mut(); NL], begun: [0; NL], done: [0; NL], after: [0; NL], n: 0 };
fn st<R>(f: impl FnOnce(*mut State) -> R) -> R {
    f(&raw mut ST)
}
impl Chain {
    fn l(&self, i: usize) -> *mut L {
        st(|s| unsafe { (&raw const (*s).l[i]).read_volatile() })
    }
    fn find(&self, p: *mut L) -> usize {
        match (0..NL).find(|&i| self.l(i) == p) {
            Some(i) => i,
            std::option::Option::None => {
                violation("stray", "a link leads to something that is not a leaf of the chain");
                NL
            }
        }
    }
    fn walk(&self, tid: usize, from: usize, how: char) {
        let t0 = self.b.tick();
        let mut seen = [false; NL];
        let mut p = self.l(from);
        let mut h = 7u64;
        while !p.is_null() {
            let i = self.find(p);
            if i == NL {
                return;
            }
            if seen[i] {
                violation("loop", "a walk along the leaves came to a leaf twice");
                return;
            }
            seen[i] = true;
            h = h * 31 + i as u64;
            let r = unsafe { &*p };
            if st(|s| unsafe { (&raw const (*s).begun[i]).read_volatile() }) == 0 {
                violation("early", "a leaf is reachable before it was linked");
            }
            if r.ikey(0) != 1000 + i as u64 {
                violation("publication", "a leaf is reachable but its contents are not visible");
            }
            p = match how {
                'p' => r.prev(),
                'h' => unmark_ptr(r.next_raw()),
                _ => TreeLeafNode::safe_next(r),
            };
            if is_marked(p) {
                violation("mark", "a next pointer to be followed carries the mark");
                return;
            }
        }
        self.b.saw(h ^ tid as u64);
        let need = |i: usize| match how {
            'p' => i < 2,
            _ => i < 2 && i >= from || self.checks & GHOST != 0 && i >= 2 && from == 0 && matches!(st(|s| unsafe { (&raw const (*s).done[i]).read_volatile() }), 1..) && st(|s| unsafe { (&raw const (*s).done[i]).read_volatile() }) < t0,
        };
        if (0..NL).any(|i| need(i) && !seen[i]) {
            violation("missed-leaf", "a walk along the leaves missed a leaf that was linked before it began");
        }
    }
    fn link(&self, i: usize) -> usize {
        let me = st(|s| unsafe {
            let n = (&raw const (*s).n).read_volatile();
            (&raw mut (*s).n).write_volatile(n + 1);
            n
        });
        let new = leaf();
        new.set_ikey(0, 1000 + me as u64);
        let new = Box::into_raw(new);
        unsafe { (&raw mut ST.l[me]).write_volatile(new) };
        let p = unsafe { &*self.l(i) };
        let mut g = TreeLeafNode::version(p).lock();
        g.mark_split();
        let t = self.b.tick();
        st(|s| unsafe {
            (&raw mut (*s).begun[me]).write_volatile(t);
            (&raw mut (*s).after[me]).write_volatile(i);
        });
        unsafe { TreeLeafNode::link_sibling(p, new) };
        let t = self.b.tick();
        st(|s| unsafe { (&raw mut (*s).done[me]).write_volatile(t) });
        drop(g);
        me
    }
}
impl Model for Chain {
    fn threads(&self) -> usize {
        self.th.len()
    }
    fn setup(&mut self) {
        self.b.reset();
        let mut l = [null_mut(); NL];
        for (i, p) in l.iter_mut().enumerate().take(2) {
            let b = leaf();
            b.set_ikey(0, 1000 + i as u64);
            *p = Box::into_raw(b);
        }
        unsafe { (&raw mut ST).write_volatile(State { l, begun: [0; NL], done: [0; NL], after: [0; NL], n: 2 }) };
        unsafe {
            (*l[0]).set_next(l[1]);
            (*l[1]).set_prev(l[0]);
            (&raw mut ST.begun).write_volatile([1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        }
        self.b.tick();
    }
    fn body(&mut self, tid: usize) {
        let me: *const Chain = self;
        let me = unsafe { &*me };
        let mut last = 0;
        for &c in &me.th[tid - 1] {
            match c {
                'a' => last = me.link(0),
                'b' => last = me.link(1),
                'c' => last = me.link(last),
                'f' | 'h' => me.walk(tid, 0, c),
                'g' => me.walk(tid, 1, c),
                'p' => me.walk(tid, 1, c),
                'q' => unsafe { (*me.l(0)).wait_for_split() },
                'm' => {
                    let p = unsafe { &*me.l(0) };
                    let mut g = TreeLeafNode::version(p).lock();
                    g.mark_split();
                    TreeLeafNode::mark_next(p);
                    TreeLeafNode::unmark_next(p);
                    drop(g);
                }
                _ => unreachable!(),
            }
        }
    }
    fn finish(&mut self) -> Result<(), (String, String)> {
        let n = unsafe { (&raw const ST.n).read_volatile() };
        self.out = unsafe { (&raw const (*self.b.0).hash).read_volatile() };
        let f = |b: bool, k: &str, m: &str| if b { Ok(()) } else { Err((k.to_string(), m.to_string())) };
        let mut order = Vec::new();
        let mut p = self.l(0);
        let mut prev: *mut L = null_mut();
        while !p.is_null() {
            let i = (0..n).find(|&i| self.l(i) == p).unwrap_or(NL);
            f(i < n, "stray", "in the end a link leads to something that is not a leaf of the chain")?;
            f(!order.contains(&i), "loop", "in the end the chain has a loop")?;
            order.push(i);
            let r = unsafe { &*p };
            f(r.prev() == prev, "prev", "in the end a leaf's prev pointer is not its predecessor")?;
            f(!r.next_is_marked() && !is_marked(r.next_raw()), "mark", "in the end a next pointer is still marked")?;
            prev = p;
            p = r.next_raw();
        }
        f(order.len() == n, "missed-leaf", "in the end a linked leaf is not in the chain")?;
        let at = |i: usize| order.iter().position(|&x| x == i).unwrap();
        for i in 2..n {
            let mut a = unsafe { (&raw const ST.after[i]).read_volatile() };
            f(at(i) > at(a), "order", "a leaf was not linked after the leaf it was split from")?;
            while a >= 2 {
                a = unsafe { (&raw const ST.after[a]).read_volatile() };
            }
            f(a == 1 || at(i) < at(1), "order", "a leaf ended up right of the old right neighbour")?;
        }
        for i in 0..n {
            drop(unsafe { Box::from_raw(self.l(i)) });
        }
        Ok(())
    }
    fn outcome(&self) -> u64 {
        self.out
    }
}

pub fn mk(n: &str, checks: u32) -> Option<Box<dyn Model>> {
    let (kind, prog) = n.split_once(':')?;
    let th = prog.split('|').map(|t| t.chars().collect()).collect();
    if kind == "chain" {
        return Some(Box::new(Chain { th, checks, b: Book::new(), out: 0 }));
    }
    let full = kind.strip_prefix("perm")?.parse().ok()?;
    Some(Box::new(Perm { th, checks, full, sh: Option::None, b: Book::new(), init: 0, out: 0 }))
}
fn words(alpha: &str, n: usize) -> Vec<String> {
    (0..n).fold(vec![String::new()], |v, _| v.iter().flat_map(|w| alpha.chars().map(move |c| format!("{w}{c}"))).collect())
}
/// every pair (or triple) of programs, each unordered choice once
fn tuples(prefix: &str, sets: &[Vec<String>]) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    sets.iter()
        .fold(vec![vec![]], |v, s| v.iter().flat_map(|t: &Vec<String>| s.iter().map(move |w| [t.clone(), vec![w.clone()]].concat())).collect())
        .into_iter()
        .filter(|t| {
            let mut s = t.clone();
            s.sort();
            seen.insert(s)
        })
        .map(|t| format!("{prefix}{}", t.join("|")))
        .collect()
}
pub fn perms(full: usize, lens: &[usize], alpha: &str) -> Vec<String> {
    tuples(&format!("perm{full}:"), &lens.iter().map(|&n| words(alpha, n)).collect::<Vec<_>>())
}
pub fn chains(lens: &[usize], alpha: &str) -> Vec<String> {
    let sets: Vec<Vec<String>> = lens.iter().map(|&n| words(alpha, n).into_iter().filter(|w| !w.starts_with('c')).collect()).collect();
    tuples("chain:", &sets).into_iter().filter(|n| n[6..].contains(['a', 'b'])).collect()
}
