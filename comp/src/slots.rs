//! P07: value slots, their raw forms and marked pointers, against who owns what.
use crate::{ck, heap, panics, part, Part, St, R};
use masstree::{is_marked, mark_ptr, unmark_ptr, LeafValue, LeafValueIndex, ValueSlot};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Arc;

static LIVE: AtomicI64 = AtomicI64::new(0);
/// A value that counts itself.
pub struct D(pub u64, [u64; 2]);
impl D {
    pub fn new(i: u64) -> D {
        LIVE.fetch_add(1, Relaxed);
        D(i, [!i, i ^ 0x5A5A])
    }
    pub fn whole(&self) -> bool {
        self.1 == [!self.0, self.0 ^ 0x5A5A]
    }
}
impl Drop for D {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
pub fn values() -> i64 {
    LIVE.load(Relaxed)
}

/// A kind of slot, with what the trait does not offer.
pub trait Kind: ValueSlot + Clone + std::fmt::Debug + Send + Sync + 'static {
    const SHARED: bool;
    const NAME: &'static str;
    fn fresh(i: u64) -> Self::Value;
    /// The number of a value that is intact.
    fn id(o: &Self::Output) -> Option<u64>;
    fn refs(o: &Self::Output) -> Option<usize>;
    /// The concrete type's own views: empty, value, layer, the layer pointer, the value's number.
    fn own(&self) -> (bool, bool, bool, Option<*mut u8>, Option<u64>);
    /// Do the views that insist on a variant panic exactly on the others?
    fn insist(&self) -> bool;
    fn none() -> Self;
}
impl Kind for LeafValue<D> {
    const SHARED: bool = true;
    const NAME: &'static str = "LeafValue";
    fn fresh(i: u64) -> D {
        D::new(i)
    }
    fn id(o: &Arc<D>) -> Option<u64> {
        o.whole().then_some(o.0)
    }
    fn refs(o: &Arc<D>) -> Option<usize> {
        Some(Arc::strong_count(o))
    }
    fn own(&self) -> (bool, bool, bool, Option<*mut u8>, Option<u64>) {
        (self.is_empty(), self.is_value(), self.is_layer(), self.try_as_layer(), self.try_clone_arc().map(|a| a.0).filter(|a| Some(*a) == self.try_as_value().map(|v| v.0)))
    }
    fn insist(&self) -> bool {
        let (v, l) = (self.is_value(), self.is_layer());
        panics(|| self.as_value().0) != v && panics(|| self.clone_arc().0) != v && panics(|| self.as_layer()) != l && panics(|| self.clone().as_value_mut().0) != v && (!v || (self.as_value().0 == self.clone_arc().0 && Arc::ptr_eq(self.as_value(), self.clone().as_value_mut())))
    }
    fn none() -> Self {
        LeafValue::empty()
    }
}
impl Kind for LeafValueIndex<u64> {
    const SHARED: bool = false;
    const NAME: &'static str = "LeafValueIndex";
    fn fresh(i: u64) -> u64 {
        i
    }
    fn id(o: &u64) -> Option<u64> {
        Some(*o)
    }
    fn refs(_: &u64) -> Option<usize> {
        None
    }
    fn own(&self) -> (bool, bool, bool, Option<*mut u8>, Option<u64>) {
        (self.is_empty(), self.is_value(), self.is_layer(), self.try_as_layer(), self.try_value())
    }
    fn insist(&self) -> bool {
        let (v, l) = (self.is_value(), self.is_layer());
        panics(|| self.value()) != v && panics(|| self.as_layer()) != l && (!v || Some(self.value()) == self.try_value())
    }
    fn none() -> Self {
        LeafValueIndex::empty()
    }
}
pub type Inline = LeafValueIndex<u64>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    E,
    V(u64),
    L(usize),
}
#[derive(Clone, Copy, Debug)]
enum O {
    New(usize),
    Of(usize, usize),
    Layer(usize, usize),
    SetLayer(usize, usize),
    Swap(usize),
    SwapOf(usize, usize),
    Take(usize, usize),
    Clear(usize),
    Dup(usize, usize),
    Get(usize, usize),
    Forget(usize),
    ToRaw(usize, usize),
    EatRaw(usize, usize),
    FromRaw(usize, usize),
    Clean(usize),
}
fn ops() -> Vec<O> {
    let mut v = vec![];
    for i in 0..2 {
        v.extend([O::New(i), O::Clear(i), O::Swap(i), O::Layer(i, i), O::SetLayer(i, 1 - i), O::Take(i, 1 - i), O::Dup(i, 1 - i), O::Forget(i), O::Clean(i)]);
        for j in 0..2 {
            v.extend([O::Of(i, j), O::SwapOf(i, j), O::Get(i, j), O::ToRaw(i, j), O::EatRaw(i, j), O::FromRaw(i, j)]);
        }
    }
    v
}
fn ptr(i: usize) -> *mut u8 {
    (0x7000 + i * 512) as *mut u8
}
struct World<K: Kind> {
    s: [K; 2],
    o: [Option<K::Output>; 2],
    r: [Option<*mut u8>; 2],
    ms: [S; 2],
    mo: [Option<u64>; 2],
    mr: [Option<u64>; 2],
    next: u64,
}
impl<K: Kind> World<K> {
    fn new() -> Self {
        World { s: [K::none(), K::default()], o: [None, None], r: [None; 2], ms: [S::E; 2], mo: [None; 2], mr: [None; 2], next: 1 }
    }
    fn mint(&mut self) -> (K::Output, u64) {
        self.next += 1;
        (K::into_output(K::fresh(self.next)), self.next)
    }
    /// False if the operation does not apply here.
    fn go(&mut self, op: O) -> Result<bool, String> {
        match op {
            O::New(i) => {
                let (o, n) = self.mint();
                self.s[i] = K::from_output(o);
                self.ms[i] = S::V(n);
            }
            O::Of(i, j) => {
                let Some(o) = &self.o[j] else { return Ok(false) };
                self.s[i] = K::from_output(o.clone());
                self.ms[i] = S::V(self.mo[j].unwrap());
            }
            O::Layer(i, p) => {
                self.s[i] = K::layer(ptr(p));
                self.ms[i] = S::L(p);
            }
            O::SetLayer(i, p) => {
                self.s[i].set_layer(ptr(p));
                self.ms[i] = S::L(p);
            }
            O::Swap(i) | O::SwapOf(i, _) => {
                if matches!(self.ms[i], S::L(_)) {
                    return Ok(false);
                }
                let (o, n) = if let O::SwapOf(_, j) = op {
                    let Some(o) = &self.o[j] else { return Ok(false) };
                    (o.clone(), self.mo[j].unwrap())
                } else {
                    self.mint()
                };
                let old = self.s[i].swap_output(o);
                let want = if let S::V(n) = self.ms[i] { Some(n) } else { None };
                if old.as_ref().map(|o| K::id(o)) != want.map(Some) {
                    return Err(format!("{op:?} returned {:?} instead of {want:?}", old.map(|o| K::id(&o))));
                }
                self.ms[i] = S::V(n);
            }
            O::Take(i, j) => {
                let t = self.s[i].take();
                self.s[j] = t;
                self.ms[j] = self.ms[i];
                self.ms[i] = S::E;
            }
            O::Clear(i) => {
                self.s[i] = K::default();
                self.ms[i] = S::E;
            }
            O::Dup(i, j) => {
                self.s[j] = self.s[i].clone();
                self.ms[j] = self.ms[i];
            }
            O::Get(i, j) => {
                self.o[j] = self.s[i].try_get();
                self.mo[j] = if let S::V(n) = self.ms[i] { Some(n) } else { None };
            }
            O::Forget(j) => {
                if self.o[j].take().is_none() {
                    return Ok(false);
                }
                self.mo[j] = None;
            }
            O::ToRaw(j, k) | O::EatRaw(j, k) => {
                if self.o[j].is_none() || self.r[k].is_some() {
                    return Ok(false);
                }
                self.mr[k] = self.mo[j];
                self.r[k] = Some(if let O::ToRaw(..) = op {
                    K::output_to_raw(self.o[j].as_ref().unwrap())
                } else {
                    self.mo[j] = None;
                    K::output_consume_to_raw(self.o[j].take().unwrap())
                });
            }
            O::FromRaw(k, j) => {
                let Some(p) = self.r[k] else { return Ok(false) };
                self.o[j] = Some(unsafe { K::output_from_raw(p) });
                self.mo[j] = self.mr[k];
            }
            O::Clean(k) => {
                let Some(p) = self.r[k].take() else { return Ok(false) };
                unsafe { K::cleanup_value_ptr(p) };
                self.mr[k] = None;
            }
        }
        Ok(true)
    }
    fn look(&self, st: &mut St, base: (i64, i64), insist: bool) -> R {
        let mut all: [Option<u64>; 6] = [None; 6];
        let mut n = 0;
        for i in 0..2 {
            let (e, v, l) = (self.ms[i] == S::E, matches!(self.ms[i], S::V(_)), matches!(self.ms[i], S::L(_)));
            let id = if let S::V(n) = self.ms[i] { Some(n) } else { None };
            let p = if let S::L(p) = self.ms[i] { Some(ptr(p)) } else { None };
            let s = &self.s[i];
            ck!(st, (s.is_empty(), s.is_value(), s.is_layer()) == (e, v, l) && s.try_layer() == p && s.try_get().as_ref().map(K::id) == id.map(Some), "slot {i} should be {:?} and is {s:?}", self.ms[i]);
            ck!(st, s.own() == (e, v, l, p, id), "slot {i} should be {:?} and is {s:?} by its own methods", self.ms[i]);
            ck!(st, !insist || s.insist(), "slot {i}: {s:?} is handed out as another variant");
            ck!(st, self.o[i].as_ref().map(K::id) == self.mo[i].map(Some), "held value {i} should be {:?}", self.mo[i]);
            for x in [id, self.mo[i], self.mr[i]] {
                all[n] = x;
                n += 1;
            }
        }
        for i in 0..2 {
            let Some(o) = &self.o[i] else { continue };
            if let Some(c) = K::refs(o) {
                let want = all.iter().filter(|x| **x == self.mo[i]).count();
                ck!(st, c == want, "value {:?} has {c} owners counted instead of {want}", self.mo[i]);
            }
        }
        let (blocks, vals) = if K::SHARED {
            let mut k = 0;
            for i in 0..6 {
                k += i64::from(all[i].is_some() && !all[..i].contains(&all[i]));
            }
            (k, k)
        } else {
            (self.mr.iter().flatten().count() as i64, 0)
        };
        ck!(st, heap::live().0 - base.0 == blocks && (!K::SHARED || values() - base.1 == vals), "{} blocks and {} values are alive instead of {blocks} and {vals}", heap::live().0 - base.0, values() - base.1);
        Ok(())
    }
}
/// All sequences of d operations; the state is looked at after each prefix.
fn seqs<K: Kind>(st: &mut St, d: usize) -> R {
    let ops = ops();
    let mut w = vec![0usize; d];
    let mut bad = String::new();
    let base = (heap::live().0, values());
    let mut from = 0; // first operation that changed since the last sequence
    loop {
        let mut x = World::<K>::new();
        let mut cut = d;
        for k in 0..d {
            match x.go(ops[w[k]]) {
                Ok(true) => {}
                Ok(false) => {
                    cut = k;
                    break;
                }
                Err(m) => {
                    bad = m;
                    cut = k;
                    break;
                }
            }
            st.trans += 1;
            if k >= from {
                st.states += 1;
                if let Err(m) = x.look(st, base, false) {
                    bad = m;
                    cut = k;
                    break;
                }
            }
        }
        if !bad.is_empty() {
            return Err(format!("{}: after {:?}: {bad}", K::NAME, w[..=cut].iter().map(|i| ops[*i]).collect::<Vec<_>>()));
        }
        for k in 0..2 {
            if let Some(p) = x.r[k] {
                unsafe { K::cleanup_value_ptr(p) };
            }
        }
        drop(x);
        ck!(st, heap::live().0 == base.0 && values() == base.1, "{}: {} blocks and {} values outlive {:?}", K::NAME, heap::live().0 - base.0, values() - base.1, w[..cut].iter().map(|i| ops[*i]).collect::<Vec<_>>());
        // next; everything below a cut is skipped
        let mut k = if cut < d { cut + 1 } else { d };
        while k > 0 && w[k - 1] == ops.len() - 1 {
            k -= 1;
        }
        if k == 0 {
            return Ok(());
        }
        w[k - 1] += 1;
        from = k - 1;
        w[k..].fill(0);
    }
}
/// The insisting views, Debug and Clone of every variant.
fn views<K: Kind>(st: &mut St, text: [&str; 3]) -> R {
    let base = values();
    for (k, t) in text.iter().enumerate() {
        let mk = || match k {
            0 => K::none(),
            1 => K::from_output(K::into_output(K::fresh(7))),
            _ => K::layer(ptr(1)),
        };
        let s = mk();
        st.states += 1;
        ck!(st, s.insist() && s.clone().insist(), "{}: {t} is handed out as another variant", K::NAME);
        ck!(st, format!("{s:?}").starts_with(t), "{}: {t} shows as {s:?}", K::NAME);
        drop(s);
        // a layer's pointer is neither followed nor released by anything here
        let mut s = mk();
        s.set_layer(ptr(0));
        ck!(st, s.is_layer() && s.try_layer() == Some(ptr(0)) && s.try_get().is_none(), "{}: {t} made a layer", K::NAME);
        drop(s);
        ck!(st, values() == base, "{}: values outlive {t}", K::NAME);
    }
    Ok(())
}
/// Marking: every address bit.
fn marks(st: &mut St, _: bool) -> R {
    let mut addrs: Vec<usize> = vec![0, 1, 2, 3, usize::MAX, usize::MAX - 1, 0x7FFF_FFFF_FFC0];
    for i in 0..64 {
        for j in 0..64 {
            addrs.extend([1 << i | 1 << j, !(1 << i | 1 << j), (1usize << i).wrapping_sub(1 << j)]);
        }
    }
    for a in addrs {
        for p in [a as *mut u64, a as *mut D as *mut u64] {
            st.states += 1;
            st.trans += 3;
            ck!(st, is_marked(p) == (a & 1 == 1) && mark_ptr(p).addr() == a | 1 && unmark_ptr(p).addr() == a & !1, "marking {a:x} gives {:x}, unmarking {:x}", mark_ptr(p).addr(), unmark_ptr(p).addr());
            ck!(st, is_marked(mark_ptr(p)) && !is_marked(unmark_ptr(p)) && unmark_ptr(mark_ptr(p)) == unmark_ptr(p) && mark_ptr(mark_ptr(p)) == mark_ptr(p), "marking {a:x} twice");
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    const W: &str = "two slots, two held values, two raw values: all sequences of 6 of the 30 operations (7 when thorough), owners counted after each";
    vec![
        part("shared", W, |s, t| seqs::<LeafValue<D>>(s, if t { 7 } else { 6 })),
        part("inline", W, |s, t| seqs::<Inline>(s, if t { 7 } else { 6 })),
        part("views", "every variant of both kinds through every view", |s, _| {
            views::<LeafValue<D>>(s, ["Empty", "Value(...)", "Layer("])?;
            views::<Inline>(s, ["Empty", "Value(...)", "Layer("])
        }),
        part("marks", "addresses of every two bits and their complements", marks),
    ]
}
