//! P05: every search routine against counting.
use crate::perm::{shapes, P};
use crate::{ck, part, Part, St, R};
use masstree::internode::InternodeNode;
use masstree::ksearch::simd::*;
use masstree::ksearch::*;
use masstree::leaf24::LeafNode24;
use masstree::permuter::Permuter;
use masstree::{LeafValue, TreeInternode, TreeLeafNode};

type V = LeafValue<u64>;
const EDGE: [u64; 12] = [0, 1, 2, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];

fn arrays(st: &mut St, keys: &[u64], sizes: &[usize], targets: &[u64]) -> R {
    st.states += 1;
    for &t in targets {
        let want = keys.iter().position(|k| *k == t);
        st.trans += 2;
        ck!(st, find_exact_u64(keys, t) == want && find_exact_u64_scalar(keys, t) == want, "find_exact of {t:x} in {keys:x?} gives {:?} and {:?}", find_exact_u64(keys, t), find_exact_u64_scalar(keys, t));
        for &n in sizes {
            let c = keys.iter().take(n).filter(|k| **k <= t).count();
            st.trans += 4;
            ck!(st, count_le_u64(keys, n, t) == c && count_le_u64_scalar(keys, n, t) == c, "count_le of {t:x} in the first {n} of {keys:x?} gives {} and {} instead of {c}", count_le_u64(keys, n, t), count_le_u64_scalar(keys, n, t));
            if n.min(keys.len()) > 32 {
                continue; // the mask has 32 bits: documented for up to 32 keys
            }
            let m = keys.iter().take(n).enumerate().filter(|(_, k)| **k == t).fold(0u32, |m, (i, _)| m | 1 << i);
            ck!(st, find_all_matches_u64(keys, n, t) == m && find_all_matches_u64_scalar(keys, n, t) == m, "find_all_matches of {t:x} in the first {n} of {keys:x?} gives {:x} and {:x} instead of {m:x}", find_all_matches_u64(keys, n, t), find_all_matches_u64_scalar(keys, n, t));
        }
    }
    Ok(())
}
/// All arrays of up to n of the values, every size argument.
fn small(st: &mut St, vals: &[u64], n: usize, targets: &[u64]) -> R {
    for len in 0..=n {
        let mut w = vec![0usize; len];
        loop {
            let keys: Vec<u64> = w.iter().map(|i| vals[*i]).collect();
            arrays(st, &keys, &(0..=len + 2).collect::<Vec<_>>(), targets)?;
            let mut k = 0;
            while k < len && w[k] == vals.len() - 1 {
                w[k] = 0;
                k += 1;
            }
            if k == len {
                break;
            }
            w[k] += 1;
        }
    }
    Ok(())
}
/// Lengths to 40: the target anywhere, in any subset of few positions, near misses by every single bit.
fn long(st: &mut St, _: bool) -> R {
    for len in 0..=40usize {
        let sizes: Vec<usize> = if len <= 26 { (0..=len + 3).collect() } else { vec![0, 1, len / 2, len - 1, len, len + 1, len + 9] };
        for &t in &EDGE {
            for fill in [t.wrapping_add(1), t.wrapping_sub(1), !t, t ^ (1 << 63), t ^ (1 << 32)] {
                let mut keys = vec![fill; len];
                arrays(st, &keys, &sizes, &[t, fill])?;
                for i in 0..len {
                    keys[i] = t;
                    arrays(st, &keys, &sizes, &[t])?;
                    for j in [i + 1, i + 4, i + 8, len.wrapping_sub(1)] {
                        if j < len && j != i {
                            let o = keys[j];
                            keys[j] = t;
                            arrays(st, &keys, &sizes, &[t])?;
                            keys[j] = o;
                        }
                    }
                    keys[i] = fill;
                }
            }
        }
    }
    // sorted arrays: the count is the child to follow
    for len in 0..=24usize {
        for (base, step) in [(0u64, 1u64), (1 << 62, 1 << 60), ((1 << 63) - 12, 1), (u64::MAX - 30, 1), (5, 0x0AAA_AAAA_AAAA_AAAA)] {
            let keys: Vec<u64> = (0..len as u64).map(|i| base.wrapping_add(i.wrapping_mul(step))).collect();
            let mut ts: Vec<u64> = keys.iter().flat_map(|k| [k.wrapping_sub(1), *k, k.wrapping_add(1)]).collect();
            ts.extend(EDGE);
            arrays(st, &keys, &[len, len / 2, len + 1, 15, 24], &ts)?;
        }
    }
    Ok(())
}
/// A page that may not be read follows the keys.
fn fence(st: &mut St, _: bool) -> R {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        if m as isize == -1 || mprotect(m.add(4096), 4096, 0) != 0 {
            return Err("mmap failed".into());
        }
        for len in 0..=34usize {
            let keys = std::slice::from_raw_parts_mut(m.add(4096 - len * 8).cast::<u64>(), len);
            for fill in [0u64, 5, u64::MAX] {
                keys.fill(fill);
                arrays(st, keys, &(0..=len + 9).collect::<Vec<_>>(), &[0, 5, 6, u64::MAX])?;
            }
        }
    }
    Ok(())
}
/// The masks of a leaf's slots, compared one key with one bit changed at a time.
fn leaf(st: &mut St, _: bool) -> R {
    let l = LeafNode24::<V>::new();
    let check = |st: &mut St, l: &LeafNode24<V>, t: u64| -> R {
        let want = (0..24).filter(|i| l.ikey(*i) == t).fold(0u32, |m, i| m | 1 << i);
        let (a, b) = (find_ikey_matches_leaf24(t, l), TreeLeafNode::find_ikey_matches(l, t));
        st.trans += 2;
        ck!(st, a == want && b == want, "matches of {t:x} in {:x?} are {a:x} and {b:x} instead of {want:x}", l.load_all_ikeys());
        Ok(())
    };
    for base in EDGE {
        for s in 0..24 {
            for bit in 0..64 {
                (0..24).for_each(|i| l.set_ikey(i, base));
                l.set_ikey(s, base ^ (1 << bit));
                st.states += 1;
                check(st, &l, base)?;
                check(st, &l, base ^ (1 << bit))?;
                for i in 0..24 {
                    ck!(st, l.ikey(i) == if i == s { base ^ (1 << bit) } else { base } && TreeLeafNode::ikey(&*l, i) == l.ikey(i) && l.load_all_ikeys()[i] == l.ikey(i), "ikey({i}) after storing");
                }
            }
        }
        // every subset of 12 neighbouring slots, and every pair of slots
        for set in 0..4096u32 {
            for at in [0, 6, 12] {
                (0..24).for_each(|i| l.set_ikey(i, if i >= at && set >> (i - at) & 1 == 1 { base } else { !base }));
                st.states += 1;
                check(st, &l, base)?;
            }
        }
    }
    Ok(())
}
/// Binary and linear searches over permuted slots: every size, several orders, every key present, absent or at an end.
fn bounds<const W: usize>(st: &mut St, _: bool) -> R {
    for n in 0..=W {
        for (p, m) in shapes::<Permuter<W>>(st, n)? {
            for (base, gap) in [(10u64, 10u64), (0, 1), (u64::MAX - 2 * W as u64 - 2, 2), ((1 << 63) - W as u64 / 2, 1)] {
                // key of the i-th position
                let k = |i: usize| base.wrapping_add(gap.wrapping_mul(i as u64));
                let mut of = [0u64; 24];
                (0..n).for_each(|i| of[m.a[i] as usize] = k(i));
                st.states += 1;
                for i in 0..=n {
                    for d in 0..gap.min(3) {
                        let x = if i == n { k(n.max(1) - 1).wrapping_add(1 + d) } else { k(i).wrapping_sub(gap.min(3) - 1 - d) };
                        let lo = (0..n).filter(|i| k(*i) < x).count();
                        let up = (0..n).filter(|i| k(*i) <= x).count();
                        let f = |s: usize| x.cmp(&of[s]);
                        st.trans += 4;
                        for r in [lower_bound_by(n, p, f), lower_bound_linear_by(n, p, f)] {
                            let hit = lo < n && k(lo) == x;
                            ck!(st, r.i == lo && r.is_found() == hit && r.try_slot() == hit.then(|| m.a[lo] as usize) && (!hit || (r.slot() == m.a[lo] as usize && r.p == r.slot())) && (hit || r.p == KeyIndexPosition::NOT_FOUND),
                                "lower bound of {x} among {n} keys from {base} by {gap} is {r:?} instead of {lo}");
                        }
                        ck!(st, upper_bound_by(n, p, f) == up && upper_bound_linear_by(n, p, f) == up, "upper bound of {x} among {n} keys from {base} by {gap} is {} and {} instead of {up}", upper_bound_by(n, p, f), upper_bound_linear_by(n, p, f));
                    }
                }
            }
        }
    }
    Ok(())
}
/// Searches in an inner node: every size, keys and their neighbours, on both sides of 2^63.
fn nodes<const W: usize>(st: &mut St, _: bool) -> R {
    for n in 0..=W {
        for (base, gap) in [(0u64, 1u64), (1, 2), (u64::MAX - 2 * W as u64, 2), ((1 << 63) - W as u64, 2), (7, u64::MAX / (W as u64 + 1)), (0, 1 << 8), (0xFF, 1 << 56)] {
            let b = InternodeNode::<V, W>::new(0);
            let k = |i: usize| base.wrapping_add(gap.wrapping_mul(i as u64));
            if (1..n).any(|i| k(i) <= k(i - 1)) {
                continue;
            }
            (0..W).for_each(|i| b.set_ikey(i, if i < n { k(i) } else { (i as u64) << 40 }));
            b.set_nkeys(n as u8);
            st.states += 1;
            let mut xs: Vec<u64> = (0..n).flat_map(|i| [k(i).wrapping_sub(1), k(i), k(i).wrapping_add(1)]).collect();
            xs.extend(EDGE);
            for x in xs {
                let up = (0..n).filter(|i| k(*i) <= x).count();
                let lo = (0..n).filter(|i| k(*i) < x).count();
                st.trans += 5;
                ck!(st, upper_bound_internode(x, &*b) == up && upper_bound_internode_direct(x, &*b) == up && upper_bound_internode_generic::<V, _>(x, &*b) == up,
                    "width {W}: child for {x:x} among {n} keys from {base:x} by {gap:x} is {}, {}, {} instead of {up}", upper_bound_internode(x, &*b), upper_bound_internode_direct(x, &*b), upper_bound_internode_generic::<V, _>(x, &*b));
                ck!(st, b.find_insert_position(x) == lo && TreeInternode::find_insert_position(&*b, x) == lo, "width {W}: insert position of {x:x} among {n} keys is {} instead of {lo}", b.find_insert_position(x));
                for i in 0..n {
                    ck!(st, b.compare_key(x, i) == x.cmp(&k(i)) && TreeInternode::compare_key(&*b, x, i) == x.cmp(&k(i)), "width {W}: comparing {x:x} with key {i} ({:x})", k(i));
                }
            }
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    const B: &str = "every size, six orders of slots, four key ranges, every key and gap";
    const N: &str = "every size, seven key ranges, every key, its neighbours and twelve edge values";
    let _ = Permuter::<3>::N;
    let mut v = vec![
        part("small", "all arrays of up to 5 of 6 values, every size argument to 2 past the end, 12 targets", |s, _| small(s, &[0, 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX], 5, &EDGE)),
        part("small9", "all arrays of up to 9 of 3 values, every size argument to 2 past the end, 5 targets", |s, t| small(s, &[3, 1 << 63, u64::MAX], if t { 12 } else { 9 }, &[2, 3, 1 << 63, u64::MAX, 0])),
        part("long", "arrays of every length to 40: the target at every position and with near misses", long),
        part("fence", "arrays of every length to 34 that end where readable memory ends, sizes to 9 past the end", fence),
        part("leaf", "24 slots: every single-bit difference at every slot, subsets of slots, 12 base keys", leaf),
    ];
    macro_rules! each {
        ($($n:literal)*) => { $(
            v.push(part(concat!("bounds", $n), B, bounds::<$n>));
            v.push(part(concat!("nodes", $n), N, nodes::<$n>));
        )* };
    }
    each!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    v
}
