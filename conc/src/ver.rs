//! Explores schedules of threads using one node version word: locks, validated reads, split siblings.
mod ffi;
mod model;
mod pool;
mod vleaf;
use ffi::violation;
use masstree::nodeversion::NodeVersion;
use model::Model;
use pool::{Job, Opts, Pass};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Lock,
    Try,
    Try0,
    TryFor,
    Yield,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mark {
    None,
    Insert,
    Split,
    Deleted,
    Nonroot,
    Panic,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Chk {
    Changed,
    Split,
    SimpleSplit,
    OrLocked,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Cs(How, Mark),
    Read(Chk),
    /// split: make a locked sibling, publish it, fill in its parent, release both
    MakeSibling(How),
    /// find the sibling and wait for it to be stable / lock it / try to lock it
    UseSibling(u8),
}
use Act::*;
use Chk::*;
const HOWS: [(char, How); 5] = [('L', How::Lock), ('T', How::Try), ('Z', How::Try0), ('F', How::TryFor), ('Y', How::Yield)];
const MARKS: [(char, Mark); 6] = [('-', Mark::None), ('i', Mark::Insert), ('s', Mark::Split), ('d', Mark::Deleted), ('n', Mark::Nonroot), ('p', Mark::Panic)];
const CHKS: [(char, Chk); 4] = [('c', Changed), ('s', Chk::Split), ('m', SimpleSplit), ('o', OrLocked)];
fn show(a: Act) -> String {
    let h = |x: How| HOWS.iter().find(|p| p.1 == x).unwrap().0;
    match a {
        Cs(x, m) => format!("{}{}", h(x), MARKS.iter().find(|p| p.1 == m).unwrap().0),
        Read(c) => format!("R{}", CHKS.iter().find(|p| p.1 == c).unwrap().0),
        MakeSibling(x) => format!("M{}", h(x)),
        UseSibling(n) => format!("U{n}"),
    }
}
fn parse(s: &str) -> Act {
    let c: Vec<char> = s.chars().collect();
    let h = |x: char| HOWS.iter().find(|p| p.0 == x).unwrap().1;
    match c[0] {
        'R' => Read(CHKS.iter().find(|p| p.0 == c[1]).unwrap().1),
        'M' => MakeSibling(h(c[1])),
        'U' => UseSibling(c[1] as u8 - b'0'),
        x => Cs(h(x), MARKS.iter().find(|p| p.0 == c[1]).unwrap().1),
    }
}

struct Sh {
    v: NodeVersion,
    plain: UnsafeCell<u64>,
    x: AtomicU64,
    y: AtomicU64,
    sib: AtomicPtr<Sib>,
}
struct Sib {
    v: NodeVersion,
    parent: UnsafeCell<u64>,
}
/// Bookkeeping outside the explored program. The engine runs one thread at a time and switches only before an
/// atomic operation, so an update here is one step with the atomic operation that precedes it.
#[derive(Clone, Copy)]
struct Ghost {
    held: u32,
    acq: u64,
    splits: u64,
    done: u64,
    started: u64,
    active: u32,
    deleted: bool,
    nonroot: bool,
    sib_open: bool,
    hash: u64,
}
const G0: Ghost = Ghost { held: 0, acq: 0, splits: 0, done: 0, started: 0, active: 0, deleted: false, nonroot: false, sib_open: false, hash: 0xcbf2_9ce4_8422_2325 };
impl Ghost {
    fn saw(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x1000_0000_01b3)
    }
}
struct VM {
    th: Vec<Vec<Act>>,
    checks: u32,
    sh: Option<Box<Sh>>,
    /// not a reference: several explored threads use it, so the compiler must not cache it
    gp: *mut Ghost,
    out: u64,
    v0: u32,
}
/// ghost ordering is meaningful (no stale reads)
pub const GHOST: u32 = 1;

impl VM {
    fn sh(&self) -> &'static Sh {
        unsafe { &*(self.sh.as_deref().unwrap() as *const Sh) }
    }
    fn g(&self) -> Ghost {
        unsafe { self.gp.read_volatile() }
    }
    fn gm(&self, f: impl FnOnce(&mut Ghost)) {
        let mut g = self.g();
        f(&mut g);
        unsafe { self.gp.write_volatile(g) }
    }
    fn saw(&self, x: u64) {
        self.gm(|g| g.saw(x))
    }
    fn cs(&mut self, tid: usize, how: How, mark: Mark, sibling: bool) {
        let sh = self.sh();
        self.gm(|g| g.started += 1);
        self.gm(|g| g.active += 1);
        let (alone, started) = (self.g().active == 1, self.g().started);
        let g = match how {
            How::Lock => Some(sh.v.lock()),
            How::Yield => Some(sh.v.lock_with_yield()),
            How::Try => sh.v.try_lock(),
            How::Try0 => sh.v.try_lock_for(Duration::ZERO),
            How::TryFor => sh.v.try_lock_for(Duration::from_secs(3600)),
        };
        let Some(mut g) = g else {
            let nobody = alone && self.g().started == started;
            self.gm(|g| g.active -= 1);
            self.saw(1000 + tid as u64);
            if self.checks & GHOST != 0 && nobody {
                violation("spurious-failure", "try_lock failed although nobody else used the lock during the call");
            }
            if how == How::TryFor {
                violation("spurious-failure", "try_lock_for gave up although its deadline is far away");
            }
            return;
        };
        self.gm(|g| g.held += 1);
        self.gm(|g| g.acq += 1);
        self.saw(2000 + tid as u64);
        if self.checks & GHOST != 0 {
            if self.g().held != 1 {
                violation("exclusion", "two threads hold the lock at the same time");
            }
            if !sh.v.is_locked() || !sh.v.is_inserting() {
                violation("lock-bits", "the word does not read as locked and being modified while the lock is held");
            }
            if NodeVersion::from_value(g.locked_value()).value() != sh.v.value() {
                violation("lock-bits", "locked_value() differs from the word while the lock is held");
            }
        }
        match mark {
            Mark::None | Mark::Panic => {}
            Mark::Insert => g.mark_insert(),
            Mark::Split => g.mark_split(),
            Mark::Deleted => g.mark_deleted(),
            Mark::Nonroot => g.mark_nonroot(),
        }
        if self.checks & GHOST != 0 && matches!(mark, Mark::Split | Mark::Deleted) && !sh.v.is_splitting() {
            violation("lock-bits", "mark_split / mark_deleted did not show in the word");
        }
        // the protected data: plain, and fields that optimistic readers look at
        let n = unsafe { *sh.plain.get() } + 1;
        sh.x.store(n, Release);
        unsafe { *sh.plain.get() = n };
        if sibling {
            let s = Box::new(Sib { v: NodeVersion::new_for_split(&sh.v), parent: UnsafeCell::new(0) });
            if !s.v.is_split_locked() || s.v.is_leaf() != sh.v.is_leaf() || s.v.is_root() {
                violation("sibling", "a sibling made for a split is not a split-locked non-root node of the same kind");
            }
            let p = Box::into_raw(s);
            self.gm(|g| g.sib_open = true);
            sh.sib.store(p, Release);
            unsafe { *(*p).parent.get() = 77 };
            self.gm(|g| g.sib_open = false);
            unsafe { (*p).v.unlock_for_split() };
            if self.checks & GHOST != 0 && (unsafe { (*p).v.value() } == 0) {
                violation("sibling", "unlock_for_split erased the word");
            }
        }
        sh.y.store(n, Release);
        match mark {
            Mark::Split => self.gm(|g| g.splits += 1),
            Mark::Deleted => {
                self.gm(|g| g.splits += 1);
                self.gm(|g| g.deleted = true)
            }
            Mark::Nonroot => self.gm(|g| g.nonroot = true),
            _ => {}
        }
        self.gm(|g| g.held -= 1);
        if mark == Mark::Panic {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _g = g;
                std::panic::resume_unwind(Box::new(()));
            }));
            if r.is_ok() {
                violation("panic", "unwinding did not happen");
            }
        } else {
            drop(g);
        }
        self.gm(|g| g.done += 1);
        self.gm(|g| g.active -= 1);
    }
    fn read(&mut self, c: Chk) {
        let sh = self.sh();
        let (done0, held0, acq0) = (self.g().done, self.g().held, self.g().acq);
        let v = sh.v.stable();
        if NodeVersion::from_value(v).is_dirty() || NodeVersion::from_value(v).is_locked() {
            violation("stable", "stable() returned a word that is marked as being modified");
        }
        if self.checks & GHOST != 0 && held0 != 0 && self.g().held != 0 && self.g().acq == acq0 {
            violation("stable", "stable() returned while the lock was held");
        }
        let started1 = self.g().started;
        let splits1 = self.g().splits;
        let x = sh.x.load(Acquire);
        let y = sh.y.load(Acquire);
        let done1 = self.g().done;
        let changed = match c {
            Changed => sh.v.has_changed(v),
            Chk::Split => sh.v.has_split(v),
            SimpleSplit => sh.v.simple_has_split(v),
            OrLocked => sh.v.has_changed_or_locked(v),
        };
        let all_split = self.th.iter().flatten().all(|a| match a {
            Cs(_, m) => matches!(m, Mark::Split | Mark::Deleted),
            MakeSibling(_) => true,
            _ => true,
        });
        self.saw(x * 100 + y * 10 + u64::from(changed));
        // torn reads must be noticed
        let torn = x != y;
        if !changed && torn && (c == OrLocked || (c == Changed && all_split)) {
            violation("torn-read", "a validated read saw half of a modification");
        }
        if self.checks & GHOST != 0 {
            // a section that began after the snapshot and ended before the check
            if !changed && done1 > started1 {
                let splitting = self.g().splits > splits1;
                if matches!(c, Changed | OrLocked) || splitting && all_split {
                    violation("missed-change", "a complete modification between snapshot and check was not noticed");
                }
            }
            // nothing at all happened
            if changed && self.g().started == done0 {
                violation("spurious-change", "a change was reported although nobody touched the node");
            }
        }
    }
    fn use_sibling(&mut self, n: u8) {
        let sh = self.sh();
        let p = sh.sib.load(Acquire);
        if p.is_null() {
            self.saw(3000 + 0);
            return;
        }
        let s = unsafe { &*p };
        let g = match n {
            0 => {
                let v = s.v.stable();
                if NodeVersion::from_value(v).is_dirty() {
                    violation("stable", "stable() returned a word that is marked as being modified");
                }
                None
            }
            1 => Some(s.v.lock()),
            2 => {
                let g = s.v.try_lock();
                if g.is_none() {
                    self.saw(3000 + 1);
                    return;
                }
                g
            }
            _ => Some(s.v.lock_with_yield()),
        };
        if self.checks & GHOST != 0 && self.g().sib_open {
            violation("sibling", "a split sibling could be entered before its creator released it");
        }
        if unsafe { *s.parent.get() } != 77 {
            violation("sibling", "the sibling's parent is not visible although the sibling has been released");
        }
        self.saw(3000 + 2);
        drop(g);
    }
}
impl Model for VM {
    fn threads(&self) -> usize {
        self.th.len()
    }
    fn setup(&mut self) {
        std::mem::forget(self.sh.take());
        unsafe { self.gp.write_volatile(G0) };
        let leaf = self.th[0].len() % 2 == 1;
        let v = NodeVersion::new(leaf);
        v.mark_root();
        self.v0 = v.stable();
        self.sh = Some(Box::new(Sh { v, plain: UnsafeCell::new(0), x: AtomicU64::new(0), y: AtomicU64::new(0), sib: AtomicPtr::new(std::ptr::null_mut()) }));
    }
    fn body(&mut self, tid: usize) {
        let me: *const VM = self;
        for &a in unsafe { &(&(*me).th)[tid - 1] } {
            match a {
                Cs(h, m) => self.cs(tid, h, m, false),
                Read(c) => self.read(c),
                MakeSibling(h) => self.cs(tid, h, Mark::Split, true),
                UseSibling(n) => self.use_sibling(n),
            }
        }
    }
    fn finish(&mut self) -> Result<(), (String, String)> {
        let sh = self.sh();
        let g = self.g();
        self.out = g.hash;
        let n = unsafe { *sh.plain.get() };
        let leaf = self.th[0].len() % 2 == 1;
        let f = |b: bool, k: &str, m: &str| if b { Ok(()) } else { Err((k.to_string(), m.to_string())) };
        f(n == g.acq, "lost-update", "an update of the protected data was lost")?;
        f(!sh.v.is_locked() && !sh.v.is_dirty(), "lock-bits", "the word is still locked or dirty after all guards were dropped")?;
        f(sh.v.is_leaf() == leaf, "flags", "the kind of the node changed")?;
        f(sh.v.is_deleted() == g.deleted, "flags", "the deleted flag does not say whether the node was deleted")?;
        f(sh.v.is_root() == !(g.nonroot || g.splits > 0), "flags", "the root flag is wrong")?;
        f(sh.v.has_changed(self.v0) == (g.acq > 0), "missed-change", "has_changed() since the start is wrong")?;
        f(sh.v.has_split(self.v0) || g.splits == 0, "missed-change", "has_split() since the start is wrong")?;
        // (a carry out of the insert counter may look like a split)
        if g.splits == 0 && g.acq > 0 && g.acq < 64 && !g.nonroot {
            f(!sh.v.has_split(self.v0), "spurious-change", "has_split() reports a split that did not happen")?;
        }
        let p = sh.sib.load(Acquire);
        if !p.is_null() {
            let s = unsafe { Box::from_raw(p) };
            f(!s.v.is_locked() && !s.v.is_dirty(), "sibling", "the sibling is still locked in the end")?;
        }
        drop(self.sh.take());
        Ok(())
    }
    fn outcome(&self) -> u64 {
        self.out
    }
}

fn name(th: &[Vec<Act>]) -> String {
    // runs of one action are written as action*count
    let one = |t: &Vec<Act>| t.chunk_by(|a, b| a == b).map(|c| if c.len() > 2 { format!("{}*{}", show(c[0]), c.len()) } else { c.iter().map(|&a| show(a)).collect::<Vec<_>>().join(",") }).collect::<Vec<_>>().join(",");
    th.iter().map(one).collect::<Vec<_>>().join("|")
}
fn mk(n: &str, checks: u32) -> Option<Box<dyn Model>> {
    if n.contains(':') {
        return vleaf::mk(n, checks);
    }
    let many = |x: &str| match x.split_once('*') {
        Some((a, k)) => vec![parse(a); k.parse().unwrap()],
        None => vec![parse(x)],
    };
    let th = n.split('|').map(|t| t.split(',').flat_map(many).collect()).collect();
    Some(Box::new(VM { th, checks, sh: None, gp: Box::into_raw(Box::new(G0)), out: 0, v0: 0 }))
}

fn sections(marks: &[Mark]) -> Vec<Act> {
    HOWS.iter().flat_map(|h| marks.iter().map(move |&m| Cs(h.1, m))).collect()
}
fn dedup(v: Vec<Vec<Vec<Act>>>) -> Vec<Vec<Vec<Act>>> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter()
        .filter(|t| {
            let mut n: Vec<String> = t.iter().map(|x| name(std::slice::from_ref(x))).collect();
            n.sort();
            seen.insert(n)
        })
        .collect()
}
fn locks2() -> Vec<Vec<Vec<Act>>> {
    let a = sections(&[Mark::None, Mark::Insert, Mark::Split, Mark::Deleted, Mark::Nonroot, Mark::Panic]);
    dedup(a.iter().flat_map(|&x| a.iter().map(move |&y| vec![vec![x], vec![y]])).collect())
}
fn locks22() -> Vec<Vec<Vec<Act>>> {
    let a: Vec<Act> = vec![Cs(How::Lock, Mark::Insert), Cs(How::Try, Mark::Split), Cs(How::Yield, Mark::None), Cs(How::TryFor, Mark::Deleted)];
    let p: Vec<Vec<Act>> = a.iter().flat_map(|&x| a.iter().map(move |&y| vec![x, y])).collect();
    dedup(p.iter().flat_map(|x| p.iter().map(move |y| vec![x.clone(), y.clone()])).collect())
}
fn locks3() -> Vec<Vec<Vec<Act>>> {
    let a = sections(&[Mark::None, Mark::Split]);
    let mut v = Vec::new();
    for &x in &a {
        for &y in &a {
            for &z in &a {
                v.push(vec![vec![x], vec![y], vec![z]]);
            }
        }
    }
    dedup(v)
}
fn reads(writers: &[Vec<Act>], nreads: usize) -> Vec<Vec<Vec<Act>>> {
    let mut v = Vec::new();
    for w in writers {
        for c in CHKS {
            v.push(vec![w.clone(), vec![Read(c.1); nreads]]);
        }
    }
    v
}
fn all_writers(n: usize) -> Vec<Vec<Act>> {
    let a: Vec<Act> = [Mark::None, Mark::Insert, Mark::Split, Mark::Deleted, Mark::Nonroot].iter().map(|&m| Cs(How::Lock, m)).chain([Cs(How::Try, Mark::None), Cs(How::Yield, Mark::Split)]).collect();
    let mut v: Vec<Vec<Act>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|p| a.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q })).collect();
    }
    v
}
/// A read next to long runs of sections: the counters in the word carry and wrap.
fn long_runs(ns: &[usize]) -> Vec<Vec<Vec<Act>>> {
    let marks = [Mark::None, Mark::Insert, Mark::Split, Mark::Deleted, Mark::Nonroot];
    let mut v = Vec::new();
    for c in CHKS {
        for &n in ns {
            let m1 = |m, k| vec![Cs(How::Lock, m); k];
            for m in marks {
                v.push(vec![vec![Read(c.1)], m1(m, n)]);
            }
            for m in [Mark::None, Mark::Insert] {
                for s in [1, 2, 64] {
                    v.push(vec![vec![Read(c.1)], [m1(m, n), m1(Mark::Split, s)].concat()]);
                    v.push(vec![vec![Read(c.1)], [m1(Mark::Split, s), m1(m, n)].concat()]);
                    v.push(vec![vec![Read(c.1)], [m1(m, n), m1(Mark::Split, s), m1(m, n)].concat()]);
                }
            }
        }
    }
    v
}
fn siblings() -> Vec<Vec<Vec<Act>>> {
    let mut v = Vec::new();
    for h in [How::Lock, How::Try, How::Yield] {
        for n in 0..4 {
            v.push(vec![vec![MakeSibling(h)], vec![UseSibling(n)]]);
            v.push(vec![vec![MakeSibling(h)], vec![UseSibling(n), UseSibling((n + 1) % 4)]]);
            v.push(vec![vec![MakeSibling(h)], vec![Read(OrLocked), UseSibling(n)]]);
            for m in 0..4 {
                v.push(vec![vec![MakeSibling(h)], vec![UseSibling(n)], vec![UseSibling(m)]]);
            }
            v.push(vec![vec![MakeSibling(h)], vec![UseSibling(n)], vec![Cs(How::Lock, Mark::Insert)]]);
        }
    }
    dedup(v)
}

struct Progs(Vec<String>);
impl From<Vec<Vec<Vec<Act>>>> for Progs {
    fn from(v: Vec<Vec<Vec<Act>>>) -> Self {
        Progs(v.iter().map(|p| name(p)).collect())
    }
}
fn check(a: &[String]) -> i32 {
    let id = a[0].as_str();
    let root = a.get(1).cloned().unwrap_or_else(|| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let th = tier == "thorough";
    let mut passes = Vec::new();
    let mut add = |what: &str, progs: Progs, pb: i32, stale: i32| {
        let jobs = progs.0.into_iter().map(|name| Job { name, checks: if stale == 0 { GHOST } else { 0 }, pb, stale, races: true, freeze: 0 }).collect();
        let s = if stale > 0 { format!(", stale reads <= {stale}") } else { String::new() };
        passes.push(Pass { what: format!("{what}, preemptions <= {pb}{s}"), jobs, narrow: if th { 30.0 } else { 4.0 }, wide: if th { 120.0 } else { 10.0 } });
    };
    let long = |what: &str, progs: Vec<Vec<Vec<Act>>>| Pass {
        what: format!("{what}, delayed at every point"),
        jobs: progs.iter().map(|p| Job { name: name(p), checks: GHOST, pb: 1, stale: 0, races: true, freeze: -1 }).collect(),
        narrow: if th { 30.0 } else { 4.0 },
        wide: if th { 120.0 } else { 10.0 },
    };
    let mut extra = Vec::new();
    let many = 6;
    match id {
        "V01" => {
            add("two critical sections, every way of locking and marking", locks2().into(), many, 0);
            add("three threads", locks3().into(), 2, 0);
            add("two sections per thread", locks22().into(), 3, 0);
            add("two critical sections", locks2().into(), 2, 1);
            add("three threads", locks3().into(), 3, 0);
            if th {
                add("two sections per thread", locks22().into(), many, 0);
                add("three threads", locks3().into(), 5, 0);
                add("two sections per thread", locks22().into(), 3, 2);
            }
        }
        "V02" => {
            add("one section, one validated read", reads(&all_writers(1), 1).into(), many, 0);
            extra.push(long("a validated read across long runs of sections", long_runs(&if th { (1..=200).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 8192, 16384]).collect::<Vec<_>>() } else { vec![1, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4096] })));
            add("two sections, two validated reads", reads(&all_writers(2), 2).into(), 3, 0);
            add("one section, one validated read", reads(&all_writers(1), 1).into(), 3, 1);
            let three: Vec<Vec<Vec<Act>>> = all_writers(1).iter().flat_map(|w| all_writers(1).into_iter().map(move |w2| (w.clone(), w2))).flat_map(|(w, w2)| CHKS.iter().map(move |c| vec![w.clone(), w2.clone(), vec![Read(c.1)]]).collect::<Vec<_>>()).collect();
            add("two writers and a reader", three.clone().into(), 2, 0);
            add("two sections, two validated reads", reads(&all_writers(2), 2).into(), 2, 2);
            add("two sections, two validated reads", reads(&all_writers(2), 2).into(), 5, 0);
            if th {
                add("three sections, two validated reads", reads(&all_writers(3), 2).into(), 4, 0);
                add("two writers and a reader", three.into(), 4, 0);
                add("three sections, two validated reads", reads(&all_writers(3), 2).into(), 2, 2);
            }
        }
        "V03" => {
            add("split siblings", siblings().into(), 4, 0);
            add("split siblings", siblings().into(), 2, 2);
            add("split siblings", siblings().into(), many, 0);
            if th {
                add("split siblings", siblings().into(), 4, 2);
                add("split siblings", siblings().into(), 10, 0);
            }
        }
        "V04" => {
            let all = "twzrioFGDPS";
            for full in [0, 1, 23] {
                add("permutation word, two threads, one call each", Progs(vleaf::perms(full, &[1, 1], all)), many, 0);
                add("permutation word, two threads, two calls and one", Progs(vleaf::perms(full, &[2, 1], all)), 3, 0);
            }
            add("permutation word, two threads, two calls and one", Progs(vleaf::perms(2, &[2, 1], all)), 2, 1);
            add("permutation word, two calls per thread", Progs(vleaf::perms(1, &[2, 2], "twiFGDS")), 2, 0);
            add("permutation word, three threads", Progs(vleaf::perms(1, &[1, 1, 1], all)), 3, 0);
            if th {
                add("permutation word, three threads", Progs(vleaf::perms(2, &[1, 1, 1], all)), 5, 0);
                add("permutation word, three threads, stale", Progs(vleaf::perms(2, &[1, 1, 1], all)), 2, 2);
                add("permutation word, two calls per thread", Progs(vleaf::perms(1, &[2, 2], all)), 4, 0);
                add("permutation word, three threads", Progs(vleaf::perms(1, &[2, 1, 1], "twioFGDS")), 2, 0);
            }
        }
        "V05" => {
            let all = "abfghpqm";
            add("sibling chain, two threads, one call each", Progs(vleaf::chains(&[1, 1], all)), many, 0);
            add("sibling chain, two threads, two calls and one", Progs(vleaf::chains(&[2, 1], "abcfghpqm")), 4, 0);
            add("sibling chain, two threads, two calls and one", Progs(vleaf::chains(&[2, 1], "abcfghpqm")), 3, 1);
            add("sibling chain, two calls per thread", Progs(vleaf::chains(&[2, 2], "abcfhp")), 3, 0);
            add("sibling chain, three threads", Progs(vleaf::chains(&[1, 1, 1], all)), 3, 0);
            if th {
                add("sibling chain, three threads", Progs(vleaf::chains(&[1, 1, 1], all)), 7, 0);
                add("sibling chain, three threads", Progs(vleaf::chains(&[1, 1, 1], all)), 2, 2);
                add("sibling chain, two calls per thread", Progs(vleaf::chains(&[2, 2], "abcfghpqm")), 7, 0);
                add("sibling chain, three threads", Progs(vleaf::chains(&[2, 1, 1], "abcfp")), 5, 0);
            }
        }
        _ => return 3,
    }
    let passes = extra.into_iter().chain(passes).collect();
    let o = Opts {
        prop: id.into(),
        tier,
        root,
        budget: if th { 1200.0 } else { 40.0 },
        assumptions: vec!["two or three threads with one to three operations each on one version word (V03: and one sibling)".into(), "scheduling points before every atomic operation".into(), "x86-64 build with debug assertions".into()],
        rule: "a case is one complete execution; distinct_nontrivial counts distinct vectors of observations in programs that have more than one".into(),
    };
    pool::check(&o, passes)
}

fn main() {
    model::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("--worker") => pool::worker(&mk),
        Some("check") => std::process::exit(check(&a[2..])),
        Some("replay") => std::process::exit(pool::replay(&a[2], &mk)),
        _ => std::process::exit(3),
    }
}
