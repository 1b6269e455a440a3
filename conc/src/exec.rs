//! Executes one scenario of concurrent map operations on the real tree and judges the execution.
use crate::ffi::{leaked, quiet, violation};
pub use crate::model::Model;
use masstree::{MassTree, MassTree24Inline};
use std::collections::BTreeMap;

pub type K = Vec<u8>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Get(K),
    GetG(K),
    Ref(K),
    Ins(K),
    InsG(K),
    /// borrow `0` under a guard, run the inner operations, then look at the borrowed value again
    Hold(K, Vec<Op>),
    /// same, but the guard is only held around the inner operations
    Guarded(Vec<Op>),
    Len,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Arc,
    Inline,
}

pub const LIN: u32 = 1;
pub const LEN: u32 = 2;
pub const AFTER: u32 = 4;
pub const DROP: u32 = 8;
/// every displaced value is handed back by exactly one insert
pub const CHAIN: u32 = 16;

#[derive(Clone, Debug)]
pub struct Scn {
    pub name: String,
    pub kind: Kind,
    pub pre: Vec<K>,
    pub th: Vec<Vec<Op>>,
    pub probe: Vec<K>,
    pub after: Vec<K>,
    pub fam: &'static str,
}

const MAXID: usize = 32768;
static mut CREATED: [u8; MAXID] = [0; MAXID];
static mut DROPPED: [u8; MAXID] = [0; MAXID];
/// the ids whose entries may be non-zero
static mut USED: [u16; MAXID] = [0; MAXID];
static mut NUSED: usize = 0;
fn touch(id: usize) {
    unsafe {
        if CREATED[id] == 0 && DROPPED[id] == 0 {
            USED[NUSED] = id as u16;
            NUSED += 1;
        }
    }
}

#[repr(C)]
pub struct Tracked {
    id: u64,
    canary: u64,
}
const CANARY: u64 = 0x600d_f00d_600d_f00d;
impl Tracked {
    fn new(id: u64) -> Self {
        touch(id as usize);
        unsafe { CREATED[id as usize] += 1 };
        Tracked { id, canary: CANARY ^ id }
    }
    fn look(&self) -> u64 {
        // volatile: a held reference is looked at again on purpose
        let (id, c) = unsafe { (std::ptr::read_volatile(&self.id), std::ptr::read_volatile(&self.canary)) };
        if c != CANARY ^ id {
            violation("bad-value", "a value read from the map is not one that was inserted (corrupt or already dropped)");
        }
        id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.canary != CANARY ^ self.id || self.id as usize >= MAXID {
            violation("double-drop", "a value is dropped although it is not a live value");
            return;
        }
        touch(self.id as usize);
        unsafe { DROPPED[self.id as usize] += 1 };
        self.canary = 0xdead;
    }
}

pub enum Tree {
    Arc(MassTree<Tracked>),
    Inline(MassTree24Inline<u64>),
}

pub const NONE: u64 = 0;
pub const ERR: u64 = u64::MAX;

impl Tree {
    fn new(k: Kind) -> Self {
        match k {
            Kind::Arc => Tree::Arc(MassTree::new()),
            Kind::Inline => Tree::Inline(MassTree24Inline::new()),
        }
    }
    fn insert(&self, k: &[u8], id: u64, own_guard: bool) -> u64 {
        match self {
            Tree::Arc(t) => {
                let v = Tracked::new(id);
                let r = if own_guard {
                    let g = t.guard();
                    t.insert_with_guard(k, v, &g)
                } else {
                    t.insert(k, v)
                };
                match r {
                    Ok(Some(a)) => a.look(),
                    Ok(None) => NONE,
                    Err(_) => ERR,
                }
            }
            Tree::Inline(t) => {
                let r = if own_guard {
                    let g = t.guard();
                    t.insert_with_guard(k, id, &g)
                } else {
                    t.insert(k, id)
                };
                match r {
                    Ok(Some(a)) => a,
                    Ok(None) => NONE,
                    Err(_) => ERR,
                }
            }
        }
    }
    fn get(&self, k: &[u8]) -> u64 {
        match self {
            Tree::Arc(t) => t.get(k).map_or(NONE, |a| a.look()),
            Tree::Inline(t) => t.get(k).unwrap_or(NONE),
        }
    }
    fn get_g(&self, k: &[u8]) -> u64 {
        match self {
            Tree::Arc(t) => {
                let g = t.guard();
                t.get_with_guard(k, &g).map_or(NONE, |a| a.look())
            }
            Tree::Inline(t) => {
                let g = t.guard();
                t.get_with_guard(k, &g).unwrap_or(NONE)
            }
        }
    }
    fn get_ref(&self, k: &[u8]) -> u64 {
        match self {
            Tree::Arc(t) => {
                let g = t.guard();
                t.get_ref(k, &g).map_or(NONE, Tracked::look)
            }
            Tree::Inline(t) => {
                let g = t.guard();
                t.get_ref(k, &g).map_or(NONE, |v| unsafe { std::ptr::read_volatile(v) })
            }
        }
    }
    fn len(&self) -> usize {
        match self {
            Tree::Arc(t) => t.len(),
            Tree::Inline(t) => t.len(),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            Tree::Arc(t) => t.is_empty(),
            Tree::Inline(t) => t.is_empty(),
        }
    }
}

#[derive(Clone, Copy)]
struct Rec {
    key: u32,
    ins: u64, // 0: read
    ret: u64,
    inv: u32,
    resp: u32,
    tid: u8,
}

pub struct TreeModel {
    scn: Scn,
    keys: Vec<K>,            // universe
    init: Vec<u64>,          // value of each key after the prefill
    prog: Vec<Vec<(Op, u64)>>, // flattened only at top level; ids for inserts
    tree: Option<Box<Tree>>,
    hist: Vec<Rec>,
    lens: Vec<(u32, u32, usize, bool)>,
    ctr: u32,
    nextid: Vec<u64>,
    out: u64,
    checks: u32,
    hot: Vec<bool>, // keys the threads touch
}

pub fn hex(k: &[u8]) -> String {
    let mut s = String::from("0x");
    if k.len() > 24 {
        for b in &k[..12] {
            s += &format!("{b:02x}");
        }
        return format!("{s}..({} bytes)", k.len());
    }
    for b in k {
        s += &format!("{b:02x}");
    }
    s
}

fn collect(ops: &[Op], out: &mut Vec<K>) {
    for o in ops {
        match o {
            Op::Get(k) | Op::GetG(k) | Op::Ref(k) | Op::Ins(k) | Op::InsG(k) => out.push(k.clone()),
            Op::Hold(k, v) => {
                out.push(k.clone());
                collect(v, out)
            }
            Op::Guarded(v) => collect(v, out),
            Op::Len => {}
        }
    }
}

impl TreeModel {
    pub fn new(scn: Scn, checks: u32) -> Self {
        let mut keys = scn.pre.clone();
        let mut hk = Vec::new();
        for t in &scn.th {
            collect(t, &mut hk);
        }
        for t in &scn.th {
            collect(t, &mut keys);
        }
        keys.extend(scn.probe.iter().cloned());
        keys.extend(scn.after.iter().cloned());
        keys.sort();
        keys.dedup();
        let mut init = vec![NONE; keys.len()];
        for (i, k) in scn.pre.iter().enumerate() {
            init[keys.binary_search(k).unwrap()] = 20000 + i as u64;
        }
        let prog = scn.th.iter().map(|t| t.iter().map(|o| (o.clone(), 0)).collect()).collect();
        let hot = keys.iter().map(|k| hk.contains(k)).collect();
        TreeModel {
            checks,
            hot,
            keys,
            init,
            prog,
            tree: None,
            hist: Vec::with_capacity(4096),
            lens: Vec::with_capacity(64),
            ctr: 0,
            nextid: vec![0; 8],
            out: 0,
            scn,
        }
    }
    fn kidx(&self, k: &K) -> u32 {
        self.keys.binary_search(k).unwrap() as u32
    }
    fn t(&self) -> &Tree {
        self.tree.as_deref().unwrap()
    }
    // never inlined: other threads use the same bookkeeping while this one is inside a call, which
    // the compiler may assume not to happen behind a `&mut self`
    #[inline(never)]
    fn tick(&mut self) -> u32 {
        self.ctr += 1;
        self.ctr
    }
    #[inline(never)]
    fn newid(&mut self, tid: usize) -> u64 {
        self.nextid[tid] += 1;
        (tid as u64) * 2000 + self.nextid[tid]
    }
    #[inline(never)]
    fn rec(&mut self, tid: usize, k: &K, ins: u64, inv: u32, ret: u64) {
        let resp = self.tick();
        let key = self.kidx(k);
        self.hist.push(Rec { key, ins, ret, inv, resp, tid: tid as u8 });
    }
    #[inline(never)]
    fn op(&mut self, tid: usize, o: &Op) {
        match o {
            Op::Get(k) => {
                let i = self.tick();
                let r = self.t().get(k);
                self.rec(tid, k, 0, i, r);
            }
            Op::GetG(k) => {
                let i = self.tick();
                let r = self.t().get_g(k);
                self.rec(tid, k, 0, i, r);
            }
            Op::Ref(k) => {
                let i = self.tick();
                let r = self.t().get_ref(k);
                self.rec(tid, k, 0, i, r);
            }
            Op::Ins(k) | Op::InsG(k) => {
                let id = self.newid(tid);
                let g = matches!(o, Op::InsG(_));
                let i = self.tick();
                let r = self.t().insert(k, id, g);
                self.rec(tid, k, id, i, r);
            }
            Op::Hold(k, inner) => {
                let me: *mut Self = self;
                let i = self.tick();
                match self.t() {
                    Tree::Arc(t) => {
                        let g = t.guard();
                        let r = t.get_ref(k, &g);
                        let id = r.map_or(NONE, Tracked::look);
                        unsafe { &mut *me }.rec(tid, k, 0, i, id);
                        for o in inner {
                            unsafe { &mut *me }.op(tid, o);
                        }
                        if let Some(r) = r {
                            if r.look() != id {
                                violation("stale-ref", "a reference borrowed under a guard changed while the guard was held");
                            }
                        }
                    }
                    Tree::Inline(t) => {
                        let g = t.guard();
                        let r = t.get_ref(k, &g);
                        let id = r.map_or(NONE, |v| unsafe { std::ptr::read_volatile(v) });
                        unsafe { &mut *me }.rec(tid, k, 0, i, id);
                        for o in inner {
                            unsafe { &mut *me }.op(tid, o);
                        }
                        if let Some(r) = r {
                            if unsafe { std::ptr::read_volatile(r) } != id {
                                violation("stale-ref", "a reference borrowed under a guard changed while the guard was held");
                            }
                        }
                    }
                }
            }
            Op::Guarded(inner) => {
                let me: *mut Self = self;
                match self.t() {
                    Tree::Arc(t) => {
                        let _g = t.guard();
                        for o in inner {
                            unsafe { &mut *me }.op(tid, o);
                        }
                    }
                    Tree::Inline(t) => {
                        let _g = t.guard();
                        for o in inner {
                            unsafe { &mut *me }.op(tid, o);
                        }
                    }
                }
            }
            Op::Len => {
                let i = self.tick();
                let n = self.t().len();
                let r = self.tick();
                let i2 = self.tick();
                let e = self.t().is_empty();
                let r2 = self.tick();
                let me = self as *mut Self;
                // never grows: allocated once
                unsafe { &mut *me }.lens.push((i, r, n, false));
                unsafe { &mut *me }.lens.push((i2, r2, usize::MAX, e));
            }
        }
    }
    fn setup(&mut self) {
        unsafe {
            for i in 0..NUSED {
                CREATED[USED[i] as usize] = 0;
                DROPPED[USED[i] as usize] = 0;
            }
            NUSED = 0;
        }
        self.hist.clear();
        self.lens.clear();
        self.ctr = 0;
        self.nextid.fill(0);
        self.out = 0xcbf2_9ce4_8422_2325;
        // an execution that was cut short by a violation may have left a tree behind: its memory
        // belongs to the previous execution's arena
        std::mem::forget(self.tree.take());
        self.tree = Some(Box::new(Tree::new(self.scn.kind)));
        for i in 0..self.scn.pre.len() {
            let me: *const Self = self;
            let k = unsafe { &(&(*me).scn.pre)[i] };
            let r = self.t().insert(k, 20000 + i as u64, false);
            if r != NONE {
                quiet(|| violation("prefill", &format!("sequential insert of new key {} returned {r}", hex(k))));
            }
        }
    }
    fn body(&mut self, tid: usize) {
        let me: *const Self = self;
        for (o, _) in unsafe { &(&(*me).prog)[tid - 1] } {
            self.op(tid, o);
        }
    }
    fn finish(&mut self) -> Result<(), (String, String)> {
        let c = self.checks;
        // outcome fingerprint: what the threads observed
        for &(_, _, n, e) in &self.lens {
            self.out = (self.out ^ (n as u64) << 1 ^ u64::from(e)).wrapping_mul(0x100_0000_01b3);
        }
        for r in &self.hist {
            for v in [r.key as u64, r.ins, r.ret, r.tid as u64] {
                self.out = (self.out ^ v).wrapping_mul(0x100_0000_01b3);
            }
        }
        let nconc = self.hist.len();
        let me: *const Self = self;
        let keys = unsafe { &(*me).keys };
        let mut cur: Vec<u64> = Vec::with_capacity(0);
        quiet(|| cur = vec![NONE; keys.len()]);
        for (i, k) in keys.iter().enumerate() {
            cur[i] = self.t().get(k);
            let (a, b) = if self.hot[i] { (self.t().get_ref(k), self.t().get_g(k)) } else { (cur[i], cur[i]) };
            if c & LIN != 0 && (a != cur[i] || b != cur[i]) {
                return Err(("linearizability".into(), format!("after all threads finished, get / get_ref / get_with_guard of key {} disagree: {} {} {}", hex(k), cur[i], a, b)));
            }
        }
        if c & LIN != 0 {
            quiet(|| self.linearizable(&cur, nconc))?;
        }
        if c & CHAIN != 0 {
            quiet(|| self.chain(&cur, nconc))?;
        }
        if c & LEN != 0 {
            quiet(|| self.lengths(nconc))?;
            let n = cur.iter().filter(|&&v| v != NONE).count();
            let (l, e) = (self.t().len(), self.t().is_empty());
            if l != n || e != (n == 0) {
                return quiet(|| Err(("len".into(), format!("{n} keys are present but len() is {l} and is_empty() is {e}"))));
            }
        }
        if c & AFTER != 0 {
            for k in unsafe { &(*me).scn.after } {
                let id = self.newid(6);
                let r = self.t().insert(k, id, false);
                let i = self.kidx(k) as usize;
                if r != cur[i] {
                    return quiet(|| Err(("aftermath".into(), format!("later sequential insert of {} returned {} instead of {}", hex(k), r, cur[i]))));
                }
                cur[i] = id;
            }
            for (i, k) in keys.iter().enumerate() {
                let r = self.t().get(k);
                if r != cur[i] {
                    return quiet(|| Err(("aftermath".into(), format!("after later sequential inserts, key {} reads {} instead of {}", hex(k), r, cur[i]))));
                }
            }
        }
        quiet(|| drop(cur));
        drop(self.tree.take());
        if c & DROP != 0 {
            for u in 0..unsafe { NUSED } {
                let i = unsafe { USED[u] } as usize;
                let (a, b) = unsafe { (CREATED[i], DROPPED[i]) };
                if a != b {
                    return quiet(|| Err(("drop-count".into(), format!("value {i} was created {a} time(s) but dropped {b} time(s)"))));
                }
            }
            let (n, what) = quiet(leaked);
            if n > 0 {
                return quiet(|| Err(("leak".into(), format!("{n} heap block(s) still allocated after the map was dropped, first: {what}"))));
            }
        }
        Ok(())
    }
    /// len() and is_empty() called while others insert.
    fn lengths(&self, n: usize) -> Result<(), (String, String)> {
        let pre = self.init.iter().filter(|&&v| v != NONE).count();
        for &(inv, resp, len, empty) in &self.lens {
            let new = || self.hist[..n].iter().filter(|r| r.ins != 0 && r.ret == NONE);
            let lo = pre + new().filter(|r| r.resp < inv).count();
            let hi = pre + new().filter(|r| r.inv < resp).count();
            if len == usize::MAX {
                if empty && lo > 0 {
                    return Err(("len".into(), format!("is_empty() said yes although {lo} key(s) had been inserted before the call")));
                }
                if !empty && hi == 0 {
                    return Err(("len".into(), "is_empty() said no although no insert had begun".into()));
                }
            } else if len < lo || len > hi {
                return Err(("len".into(), format!("len() returned {len}, but the map held at least {lo} and at most {hi} keys during the call")));
            }
        }
        Ok(())
    }
    /// For each key: what the inserts handed back plus the final value is exactly the initial value
    /// plus everything inserted.
    fn chain(&self, fin: &[u64], n: usize) -> Result<(), (String, String)> {
        for (i, k) in self.keys.iter().enumerate() {
            let ops = self.hist[..n].iter().filter(|r| r.key == i as u32 && r.ins != 0);
            let (mut a, mut b): (Vec<u64>, Vec<u64>) = ops.map(|r| (r.ins, r.ret)).unzip();
            a.push(self.init[i]);
            b.push(fin[i]);
            a.sort();
            b.sort();
            if a != b {
                return Err(("handed-back".into(), format!("key {}: initial and inserted values {a:?}, but returned and remaining values {b:?}", hex(k))));
            }
        }
        Ok(())
    }
    fn linearizable(&self, fin: &[u64], n: usize) -> Result<(), (String, String)> {
        let mut by: BTreeMap<u32, Vec<Rec>> = BTreeMap::new();
        for r in &self.hist[..n] {
            if r.ret == ERR {
                return Err(("linearizability".into(), format!("insert of {} failed", hex(&self.keys[r.key as usize]))));
            }
            by.entry(r.key).or_default().push(*r);
        }
        for (i, k) in self.keys.iter().enumerate() {
            let empty = Vec::new();
            let ops = by.get(&(i as u32)).unwrap_or(&empty);
            if !search(ops, 0, self.init[i], fin[i]) {
                let mut s = format!("no sequential order explains the results for key {} (initially {}, finally {}):", hex(k), show(self.init[i]), show(fin[i]));
                for r in ops {
                    s += &if r.ins != 0 {
                        format!(" [t{} {}..{} insert {} -> {}]", r.tid, r.inv, r.resp, r.ins, show(r.ret))
                    } else {
                        format!(" [t{} {}..{} get -> {}]", r.tid, r.inv, r.resp, show(r.ret))
                    };
                }
                return Err(("linearizability".into(), s));
            }
        }
        Ok(())
    }
}
fn show(v: u64) -> String {
    match v {
        NONE => "absent".into(),
        ERR => "error".into(),
        v => format!("v{v}"),
    }
}
fn search(ops: &[Rec], done: u32, val: u64, fin: u64) -> bool {
    if done == (1u32 << ops.len()) - 1 {
        return val == fin;
    }
    let mut first = u32::MAX;
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 0 {
            first = first.min(o.resp);
        }
    }
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 0 && o.inv < first && o.ret == val {
            let nv = if o.ins != 0 { o.ins } else { val };
            if search(ops, done | 1 << i, nv, fin) {
                return true;
            }
        }
    }
    false
}

impl Model for TreeModel {
    fn setup(&mut self) {
        TreeModel::setup(self)
    }
    fn body(&mut self, tid: usize) {
        TreeModel::body(self, tid)
    }
    fn finish(&mut self) -> Result<(), (String, String)> {
        TreeModel::finish(self)
    }
    fn outcome(&self) -> u64 {
        self.out
    }
    fn threads(&self) -> usize {
        self.scn.th.len()
    }
}
