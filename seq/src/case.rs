//! One case: a starting map, a list of operations, and how closely to look. Runs it against the real
//! map and a sorted-map oracle.
use masstree::{MassTree, MassTree24, MassTree24Inline, MassTreeIndex};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::Arc;

pub type K = Vec<u8>;

#[derive(Clone, Debug)]
pub enum Op {
    /// insert through the API variant chosen by the case
    Ins(K),
    /// an over-long key: every entry point must refuse it
    Bad(K),
}
#[derive(Clone, Debug)]
pub struct Case {
    /// 0 MassTree, 1 MassTree24Inline, 2 MassTreeIndex, 3 MassTree24, 4.. other value types, 9 drop-tracked values
    pub kind: u8,
    /// 0 plain calls, 1 a fresh guard per call, 3 all entry points at every read (tracked values: see `owned`)
    pub api: u8,
    pub start: std::rc::Rc<Vec<K>>,
    pub ops: Vec<Op>,
    /// read after every operation
    pub step: std::rc::Rc<Vec<K>>,
    /// read at the end (besides everything in the map)
    pub end: std::rc::Rc<Vec<K>>,
    /// compare everything after every operation
    pub all: bool,
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: &'static str,
    pub msg: String,
}
pub fn bad<T>(kind: &'static str, msg: String) -> Result<T, Bad> {
    Err(Bad { kind, msg })
}

pub fn show(k: &[u8]) -> String {
    let s: String = k.iter().take(40).map(|b| if (0x21..0x7f).contains(b) && *b != b'\\' { (*b as char).to_string() } else { format!("\\{b:02x}") }).collect();
    if k.len() > 40 {
        format!("{s}...({} bytes)", k.len())
    } else {
        format!("\"{s}\"")
    }
}

/// What the explorer needs from a map, with the value made from / read back as a number.
pub trait Map {
    fn insert(&mut self, k: &[u8], v: u64, api: u8) -> Result<Option<u64>, String>;
    fn get(&self, k: &[u8], api: u8) -> Option<u64>;
    fn entries(&self) -> u8;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

/// A value type with an embedding of the numbers.
pub trait Val: Send + Sync + 'static {
    fn mk(n: u64) -> Self;
    fn rd(&self) -> u64;
}
pub trait CopyVal: Val + Copy {}
macro_rules! val {
    ($t:ty, $mk:expr, $rd:expr) => {
        impl Val for $t {
            fn mk(n: u64) -> Self {
                let f: fn(u64) -> $t = $mk;
                f(n)
            }
            fn rd(&self) -> u64 {
                let f: fn(&$t) -> u64 = $rd;
                f(self)
            }
        }
        impl CopyVal for $t {}
    };
}
/// Numbers that look like the sentinels a slot might use.
pub fn odd(n: u64) -> u64 {
    const T: [u64; 16] = [0, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 48, (1 << 48) - 1, 0xdead_beef, 8, 4096, u32::MAX as u64, 1 << 32, 0x7fff_ffff_f000];
    T[(n % 16) as usize]
}
val!(u64, |n| n, |v| *v);
#[derive(Clone, Copy)]
pub struct Odd(u64);
val!(Odd, |n| Odd(odd(n)), |v| v.0);
val!(u8, |n| n as u8, |v| *v as u64);
val!(i32, |n| n as i32, |v| *v as u64);
val!((), |_| (), |_| 0);
val!([u8; 3], |n| [n as u8, (n >> 8) as u8, (n >> 16) as u8], |v| v[0] as u64 | (v[1] as u64) << 8 | (v[2] as u64) << 16);
val!(u128, |n| (n as u128) << 64 | !(n as u128) & 0xffff_ffff_ffff_ffff, |v| if (*v as u64) == !((*v >> 64) as u64) { (*v >> 64) as u64 } else { u64::MAX - 7 });
val!([u64; 5], |n| [n, !n, n ^ 0x55, n.wrapping_mul(3), n], |v| if v[1] == !v[0] && v[2] == v[0] ^ 0x55 && v[3] == v[0].wrapping_mul(3) && v[4] == v[0] { v[0] } else { u64::MAX - 7 });
impl Val for String {
    fn mk(n: u64) -> Self {
        format!("value {n}")
    }
    fn rd(&self) -> u64 {
        self.strip_prefix("value ").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX - 7)
    }
}

macro_rules! generic_map {
    ($ty:ty, $v:ty, $wrap:ident, $rd:expr) => {
        fn insert(&mut self, k: &[u8], v: u64, api: u8) -> Result<Option<u64>, String> {
            let rd: fn(_) -> u64 = $rd;
            let r = if api == 0 || (api == 3 && v % 2 == 0) {
                self.0.insert(k, <$v>::mk(v))
            } else {
                let g = self.0.guard();
                self.0.insert_with_guard(k, <$v>::mk(v), &g)
            };
            r.map(|o| o.map(rd)).map_err(|e| format!("{e:?}"))
        }
        fn get(&self, k: &[u8], api: u8) -> Option<u64> {
            let rd: fn(_) -> u64 = $rd;
            match api {
                0 => self.0.get(k).map(rd),
                1 => {
                    let g = self.0.guard();
                    self.0.get_with_guard(k, &g).map(rd)
                }
                _ => {
                    let g = self.0.guard();
                    self.0.get_ref(k, &g).map(|v| v.rd())
                }
            }
        }
        fn entries(&self) -> u8 {
            3
        }
        fn len(&self) -> usize {
            self.0.len()
        }
        fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    };
}
pub struct TArc<V: Val>(pub MassTree<V>);
impl<V: Val> Map for TArc<V> {
    generic_map!(MassTree<V>, V, Arc, |a: Arc<V>| a.rd());
}
pub struct T24<V: Val>(pub MassTree24<V>);
impl<V: Val> Map for T24<V> {
    generic_map!(MassTree24<V>, V, Arc, |a: Arc<V>| a.rd());
}
pub struct TInl<V: CopyVal>(pub MassTree24Inline<V>);
impl<V: CopyVal> Map for TInl<V> {
    generic_map!(MassTree24Inline<V>, V, id, |a: V| a.rd());
}
pub struct TIdx<V: CopyVal>(pub MassTreeIndex<V>);
impl<V: CopyVal> Map for TIdx<V> {
    fn insert(&mut self, k: &[u8], v: u64, _: u8) -> Result<Option<u64>, String> {
        self.0.insert(k, V::mk(v)).map(|o| o.map(|x| x.rd())).map_err(|e| format!("{e:?}"))
    }
    fn get(&self, k: &[u8], _: u8) -> Option<u64> {
        self.0.get(k).map(|x| x.rd())
    }
    fn entries(&self) -> u8 {
        1
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

/// A value that knows whether it is alive.
pub struct Tracked {
    magic: AtomicU64,
    n: u64,
    extra: Box<u64>,
}
const ALIVE: u64 = 0x5a5a_1234_abcd_0001;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static DOUBLE: AtomicI64 = AtomicI64::new(0);
pub static DROPS: [AtomicU8; 1 << 16] = [const { AtomicU8::new(0) }; 1 << 16];
impl Val for Tracked {
    fn mk(n: u64) -> Self {
        LIVE.fetch_add(1, Relaxed);
        DROPS[(n & 0xffff) as usize].store(0, Relaxed);
        Tracked { magic: AtomicU64::new(ALIVE), n, extra: Box::new(!n) }
    }
    fn rd(&self) -> u64 {
        if self.magic.load(Relaxed) != ALIVE || *self.extra != !self.n {
            return u64::MAX - 9;
        }
        self.n
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic.swap(0, Relaxed) != ALIVE {
            DOUBLE.fetch_add(1, Relaxed);
        }
        DROPS[(self.n & 0xffff) as usize].fetch_add(1, Relaxed);
        LIVE.fetch_sub(1, Relaxed);
    }
}

/// Canonical number a value type stores for `n`.
fn norm(kind: u8, n: u64) -> u64 {
    match kind {
        10 | 11 => odd(n),
        12 => n & 0xff,
        13 => n as i32 as u64,
        14 => 0,
        15 => n & 0xff_ffff,
        _ => n,
    }
}
pub const VALUE_KINDS: &[u8] = &[10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
fn mk(kind: u8) -> Box<dyn Map> {
    match kind {
        0 => Box::new(TArc::<u64>(MassTree::new())),
        1 => Box::new(TInl::<u64>(MassTree24Inline::new())),
        2 => Box::new(TIdx::<u64>(MassTreeIndex::new())),
        3 => Box::new(T24::<u64>(MassTree24::default())),
        4 => Box::new(TInl::<u64>(MassTree24Inline::default())),
        5 => Box::new(TIdx::<u64>(MassTreeIndex::default())),
        9 => Box::new(TArc::<Tracked>(MassTree::new())),
        10 => Box::new(TInl::<Odd>(MassTree24Inline::new())),
        11 => Box::new(TArc::<Odd>(MassTree::new())),
        12 => Box::new(TInl::<u8>(MassTree24Inline::new())),
        13 => Box::new(TInl::<i32>(MassTree24Inline::new())),
        14 => Box::new(TArc::<()>(MassTree::new())),
        15 => Box::new(TArc::<[u8; 3]>(MassTree::new())),
        16 => Box::new(TArc::<u128>(MassTree::new())),
        17 => Box::new(TArc::<[u64; 5]>(MassTree::new())),
        18 => Box::new(TArc::<String>(MassTree::new())),
        19 => Box::new(TIdx::<u128>(MassTreeIndex::new())),
        _ => unreachable!("kind {kind}"),
    }
}

thread_local!(pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub ops: u64,
    pub reads: u64,
    pub states: std::collections::HashSet<u64>,
}

pub fn hash(model: &BTreeMap<K, u64>, salt: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for (k, _) in model {
        for &b in k {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        h = (h ^ (0x100 + k.len() as u64)).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}

/// judge len() and is_empty() only
pub static LEN_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Run<'a> {
    c: &'a Case,
    m: Box<dyn Map>,
    model: BTreeMap<K, u64>,
    next: u64,
    st: &'a mut Stats,
}
impl Run<'_> {
    fn read(&mut self, k: &[u8], when: &str) -> Result<(), Bad> {
        if LEN_ONLY.load(Relaxed) {
            return Ok(());
        }
        let want = self.model.get(k).map(|&n| norm(self.c.kind, n));
        let e = self.m.entries();
        let apis: std::ops::Range<u8> = if self.c.api == 3 {
            0..e
        } else {
            // plain cases rotate through the entry points so that each is used everywhere
            let a = ((self.st.reads + self.c.api as u64) % e as u64) as u8;
            a..a + 1
        };
        for a in apis {
            self.st.reads += 1;
            let got = self.m.get(k, a);
            if got != want {
                let n = ["get", "get_with_guard", "get_ref"][a as usize];
                let kind = if self.c.kind >= 9 && got == Some(u64::MAX - 9) { "dead-value" } else { "read" };
                return bad(kind, format!("{n}({}) returned {got:?}, expected {want:?} {when}", show(k)));
            }
        }
        Ok(())
    }
    fn counts(&mut self, when: &str) -> Result<(), Bad> {
        let (l, e) = (self.m.len(), self.m.is_empty());
        if l != self.model.len() {
            return bad("len", format!("len() returned {l}, expected {} {when}", self.model.len()));
        }
        if e != self.model.is_empty() {
            return bad("len", format!("is_empty() returned {e} with {} keys {when}", self.model.len()));
        }
        Ok(())
    }
    fn ins(&mut self, k: &[u8], when: &str) -> Result<(), Bad> {
        let v = self.next;
        self.next += 1;
        self.st.ops += 1;
        let want = self.model.insert(k.to_vec(), v).map(|n| norm(self.c.kind, n));
        match self.m.insert(k, v, self.c.api) {
            Err(e) => bad("error", format!("insert({}) failed with {e} {when}", show(k))),
            Ok(got) if got != want && !LEN_ONLY.load(Relaxed) => bad("return", format!("insert({}) returned {got:?}, expected {want:?} {when}", show(k))),
            Ok(_) => Ok(()),
        }
    }
    fn everything(&mut self, when: &str) -> Result<(), Bad> {
        let keys: Vec<K> = self.model.keys().cloned().collect();
        for k in &keys {
            self.read(k, when)?;
        }
        self.counts(when)
    }
    fn refused(&mut self, k: &[u8], when: &str) -> Result<(), Bad> {
        let v = self.next;
        self.next += 1;
        let e = self.m.entries();
        for a in 0..e {
            let r = catch_unwind(AssertUnwindSafe(|| self.m.get(k, a)));
            if let Ok(Some(x)) = r {
                return bad("accepted", format!("a lookup of a {}-byte key returned {x} {when}", k.len()));
            }
        }
        for a in 0..2 {
            let r = catch_unwind(AssertUnwindSafe(|| self.m.insert(k, v, a)));
            if let Ok(Ok(x)) = r {
                return bad("accepted", format!("insert of a {}-byte key returned {x:?} {when}", k.len()));
            }
        }
        self.counts(when)
    }
    fn go(&mut self, salt: u64) -> Result<(), Bad> {
        let c = self.c;
        let start = c.start.clone();
        for k in start.iter() {
            self.ins(k, "while building the starting map")?;
        }
        self.counts("in the starting map")?;
        let step = c.step.clone();
        for (i, op) in c.ops.iter().enumerate() {
            let when = || format!("at operation {i}");
            match op {
                Op::Ins(k) => self.ins(k, &when())?,
                Op::Bad(k) => self.refused(k, &when())?,
            }
            if !step.is_empty() {
                let w = format!("after operation {i}");
                for k in step.iter() {
                    self.read(k, &w)?;
                }
                self.counts(&w)?;
                self.st.states.insert(hash(&self.model, salt));
            }
            if c.all {
                self.everything(&format!("after operation {i}"))?;
            }
        }
        let end = c.end.clone();
        for k in end.iter() {
            self.read(k, "at the end")?;
        }
        self.everything("at the end")?;
        self.st.states.insert(hash(&self.model, salt));
        Ok(())
    }
}

/// Runs the case; a panic is a violation.
pub fn run(c: &Case, st: &mut Stats) -> Result<(), Bad> {
    st.cases += 1;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut r = Run { c, m: mk(c.kind), model: BTreeMap::new(), next: 1, st: &mut *st };
        r.go(c.kind as u64)
    }));
    match r {
        Ok(x) => x,
        Err(_) => bad("panic", PANIC.with(|p| p.borrow().clone())),
    }
}

/// Ownership: the case is run with tracked values, holding what the map hands out; then everything is
/// given back and the books must balance.
pub fn run_owned(c: &Case, st: &mut Stats) -> Result<(), Bad> {
    st.cases += 1;
    let r = catch_unwind(AssertUnwindSafe(|| owned(c, st)));
    match r {
        Ok(x) => x,
        Err(_) => bad("panic", PANIC.with(|p| p.borrow().clone())),
    }
}
fn owned(c: &Case, st: &mut Stats) -> Result<(), Bad> {
    DOUBLE.store(0, Relaxed);
    let live0 = LIVE.load(Relaxed);
    let mut err: Option<Bad> = None;
    {
        let t: MassTree<Tracked> = MassTree::new();
        let mut model: BTreeMap<&[u8], u64> = BTreeMap::new();
        // api bit 0: keep the displaced values, bit 1: keep a handle to every value, bit 2: one guard for everything
        let keep_old = c.api & 1 != 0;
        let keep_all = c.api & 2 != 0;
        let mut kept: Vec<(u64, Arc<Tracked>)> = Vec::new();
        let mut n = 1u64;
        {
            let g = (c.api & 4 != 0).then(|| t.guard());
            let mut refs: Vec<(u64, &Tracked)> = Vec::new();
            for k in c.start.iter().chain(c.ops.iter().filter_map(|o| if let Op::Ins(k) = o { Some(k) } else { None })) {
                st.ops += 1;
                let old = match &g {
                    Some(g) => t.insert_with_guard(k, Tracked::mk(n), g),
                    None => t.insert(k, Tracked::mk(n)),
                };
                let want = model.insert(k, n);
                match old {
                    Err(e) => err = err.or_else(|| Some(Bad { kind: "error", msg: format!("{e:?}") })),
                    Ok(o) => {
                        if o.as_ref().map(|a| a.rd()) != want {
                            err = err.or_else(|| Some(Bad { kind: "return", msg: format!("insert({}) handed back {:?}, expected {want:?}", show(k), o.as_ref().map(|a| a.rd())) }));
                        }
                        if let (Some(o), true) = (o, keep_old) {
                            kept.push((want.unwrap_or(0), o));
                        }
                    }
                }
                if keep_all {
                    match t.get(k) {
                        Some(a) => kept.push((n, a)),
                        None => err = err.or_else(|| Some(Bad { kind: "read", msg: format!("get({}) found nothing after the insert", show(k)) })),
                    }
                }
                if let Some(g) = &g {
                    match t.get_ref(k, g) {
                        Some(r) => refs.push((n, r)),
                        None => err = err.or_else(|| Some(Bad { kind: "read", msg: format!("get_ref({}) found nothing after the insert", show(k)) })),
                    }
                }
                n += 1;
                if err.is_some() {
                    break;
                }
            }
            for (n, r) in &refs {
                if r.rd() != *n {
                    err = err.or_else(|| Some(Bad { kind: "dead-value", msg: format!("a reference obtained under a live guard no longer reads {n}") }));
                }
            }
            drop(refs);
            drop(g);
        }
        for (n, a) in &kept {
            if a.rd() != *n {
                err = err.or_else(|| Some(Bad { kind: "dead-value", msg: format!("a handle returned by the map no longer reads {n}") }));
            }
        }
        if err.is_none() {
            for (k, n) in &model {
                st.reads += 1;
                let a = t.get(k);
                if a.as_ref().map(|a| a.rd()) != Some(*n) {
                    err = Some(Bad { kind: "read", msg: format!("get({}) returned {:?}, expected {n}", show(k), a.map(|a| a.rd())) });
                    break;
                }
            }
        }
        drop(t);
        // handles outlive the map
        for (n, a) in &kept {
            if a.rd() != *n {
                err = err.or_else(|| Some(Bad { kind: "dead-value", msg: format!("a handle that outlives the map no longer reads {n}") }));
            }
        }
        let handed: std::collections::BTreeSet<u64> = kept.iter().map(|(n, _)| *n).collect();
        if err.is_none() {
            for i in 1..n {
                let d = DROPS[(i & 0xffff) as usize].load(Relaxed);
                let want = u8::from(!handed.contains(&i));
                if d != want {
                    err = Some(Bad { kind: "drop", msg: format!("value {i} was dropped {d} times after the map was dropped, expected {want}") });
                    break;
                }
            }
        }
        drop(kept);
        if err.is_none() {
            for i in 1..n {
                let d = DROPS[(i & 0xffff) as usize].load(Relaxed);
                if d != 1 {
                    err = Some(Bad { kind: "drop", msg: format!("value {i} was dropped {d} times in the end") });
                    break;
                }
            }
        }
        st.states.insert(hash(&model.iter().map(|(k, v)| (k.to_vec(), *v)).collect(), c.api as u64));
    }
    if let Some(e) = err {
        return Err(e);
    }
    if DOUBLE.load(Relaxed) != 0 {
        return bad("drop", format!("{} values were dropped again", DOUBLE.load(Relaxed)));
    }
    if LIVE.load(Relaxed) != live0 {
        return bad("drop", format!("{} values are still alive", LIVE.load(Relaxed) - live0));
    }
    Ok(())
}
/// Memory balance around a whole case: `None` when a warm-up is needed.
pub fn heap_neutral(c: &Case) -> Result<(), Bad> {
    // the states set and similar bookkeeping must not be charged to the map
    let mut st = Stats::default();
    st.states.reserve(64);
    let before = crate::heap::balance();
    {
        let mut t = mk(c.kind);
        for (i, k) in c.start.iter().chain(c.ops.iter().filter_map(|o| if let Op::Ins(k) = o { Some(k) } else { None })).enumerate() {
            let r = catch_unwind(AssertUnwindSafe(|| t.insert(k, i as u64, 1)));
            if !matches!(r, Ok(Ok(_))) {
                return bad("error", "insert failed".into());
            }
        }
    }
    let after = crate::heap::balance();
    if before != after {
        return bad("leak", format!("{} allocations ({} bytes) outstanding after the map was dropped", after.0 - before.0, after.1 - before.1));
    }
    Ok(())
}
