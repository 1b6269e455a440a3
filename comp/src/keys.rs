//! P06: keys seen slice by slice.
use crate::{ck, panics, part, Part, St, R};
use masstree::key::{Key, IKEY_SIZE, MAX_KEY_LENGTH};
use std::cmp::Ordering::*;

fn slice(d: &[u8], at: usize) -> u64 {
    (0..8).fold(0, |v, i| v << 8 | d.get(at + i).map_or(0, |b| *b as u64))
}
fn look(st: &mut St, k: &Key<'_>, d: &[u8], at: usize) -> R {
    let o = at * 8;
    let rest = d.len().saturating_sub(o);
    let tail = d.get(o + 8..).unwrap_or(&[]);
    st.states += 1;
    ck!(st, k.ikey() == slice(d, o), "{} bytes, slice {at}: ikey {:x} instead of {:x}", d.len(), k.ikey(), slice(d, o));
    ck!(st, k.len() == d.len() && k.current_len() == rest && k.shift_count() == at && k.is_shifted() == (at > 0) && k.is_empty() == d.is_empty() && k.full_data() == d, "{} bytes, slice {at}: lengths", d.len());
    ck!(st, k.has_suffix() == (rest > 8) && k.suffix() == tail && k.suffix_len() == tail.len() && k.suffix_start() == (o + 8).min(d.len()), "{} bytes, slice {at}: suffix of {} bytes instead of {}", d.len(), k.suffix().len(), tail.len());
    Ok(())
}
fn texts(len: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0; len], vec![0xFF; len], (0..len).map(|i| i as u8).collect(), (0..len).map(|i| (i * 167 + 3) as u8).collect(), (0..len).map(|i| if i % 8 == 7 { 0x80 } else { 0 }).collect()];
    v.dedup();
    v
}
/// Every length, every slice, by single shifts, several at once, and back.
fn shifts(st: &mut St, _: bool) -> R {
    ck!(st, IKEY_SIZE == 8 && MAX_KEY_LENGTH == 256, "constants");
    for len in 0..=256usize {
        for d in texts(len) {
            let n = if len == 0 { 0 } else { (len - 1) / 8 };
            let mut k = Key::new(&d);
            look(st, &k, &d, 0)?;
            look(st, &Key::from_suffix(&d), &d, 0)?;
            for at in 0..n {
                k.shift();
                st.trans += 1;
                look(st, &k, &d, at + 1)?;
            }
            for at in (0..n).rev() {
                k.unshift();
                st.trans += 1;
                look(st, &k, &d, at)?;
            }
            for a in 0..=n {
                let mut k = Key::new(&d);
                k.shift_by(a * 8);
                look(st, &k, &d, a)?;
                for b in 0..=n - a {
                    let mut j = k;
                    j.shift_by(b * 8);
                    st.trans += 2;
                    look(st, &j, &d, a + b)?;
                    if b > 0 {
                        j.unshift();
                        look(st, &j, &d, a + b - 1)?;
                    }
                    j.unshift_all();
                    look(st, &j, &d, 0)?;
                    if n > 0 {
                        j.shift();
                        look(st, &j, &d, 1)?;
                    }
                }
            }
            for o in 0..=len + 9 {
                st.trans += 1;
                ck!(st, Key::read_ikey(&d, o) == slice(&d, o), "read_ikey at {o} of {len} bytes gives {:x}", Key::read_ikey(&d, o));
            }
            if len < 8 {
                ck!(st, Key::read_ikey_slow(&d) == slice(&d, 0), "read_ikey_slow of {len} bytes");
            }
        }
    }
    for len in [257usize, 258, 264, 511, 512, 513, 65_535, 65_536, 65_792] {
        let d = vec![1u8; len];
        ck!(st, panics(|| Key::new(&d)) && panics(|| Key::from_suffix(&d)), "a key of {len} bytes is accepted");
    }
    Ok(())
}
/// A layer's key order is the order of the byte strings: comparison with a stored slice and length class.
fn compare(st: &mut St, _: bool) -> R {
    let mut all: Vec<Vec<u8>> = vec![];
    for len in 0..=18usize {
        for b in [0u8, 1, 0x7F, 0x80, 0xFF] {
            all.push(vec![b; len]);
            for at in 0..len {
                let mut v = vec![b; len];
                v[at] ^= 0x80;
                all.push(v);
            }
        }
        all.push((0..len).map(|i| i as u8).collect());
    }
    all.sort();
    all.dedup();
    for a in &all {
        for b in &all {
            // b stored in a leaf: its first slice, and its length, 9 or more meaning "has a suffix"
            for class in [b.len(), if b.len() > 8 { 64 } else { b.len() }, if b.len() > 8 { 9 } else { b.len() }] {
                let want = (slice(a, 0), a.len().min(9)).cmp(&(slice(b, 0), b.len().min(9)));
                let got = Key::new(a).compare(slice(b, 0), class);
                st.trans += 1;
                ck!(st, got == want, "{a:x?} against {b:x?} stored with length class {class}: {got:?} instead of {want:?}");
                if a.len() <= 8 || b.len() <= 8 || slice(a, 0) != slice(b, 0) {
                    ck!(st, got == a.cmp(b), "{a:x?} against {b:x?}: {got:?} is not the order of the strings");
                } else {
                    ck!(st, got == Equal && Key::new(a).suffix().cmp(Key::new(b).suffix()) == a.cmp(b), "{a:x?} against {b:x?}: suffixes are not in the order of the strings");
                }
            }
            ck!(st, Key::compare_ikey(slice(a, 0), slice(b, 0)) == slice(a, 0).cmp(&slice(b, 0)), "compare_ikey");
        }
        st.states += 1;
        // the same through a shifted key
        for lead in [8usize, 16] {
            let mut l = vec![0x55u8; lead];
            l.extend(a);
            if a.is_empty() {
                continue;
            }
            let mut k = Key::new(&l);
            k.shift_by(lead);
            look(st, &k, &l, lead / 8)?;
            for b in all.iter().step_by(7) {
                let want = (slice(a, 0), a.len().min(9)).cmp(&(slice(b, 0), b.len().min(9)));
                ck!(st, k.compare(slice(b, 0), b.len()) == want, "{a:x?} after {lead} bytes against {b:x?}: {:?}", k.compare(slice(b, 0), b.len()));
            }
        }
    }
    Ok(())
}
/// Keys made of a slice value.
fn ikeys(st: &mut St, _: bool) -> R {
    for bits in 0..64 {
        for low in 0..64 {
            let v = (1u64 << bits) | (1 << low);
            for v in [v, v.wrapping_neg(), !v, v << 3] {
                let k = Key::from_ikey(v);
                st.states += 1;
                st.trans += 1;
                let len = 8 - (0..8).take_while(|i| v >> (8 * i) & 0xFF == 0).count();
                ck!(st, k.ikey() == v && k.shift_count() == 0 && !k.has_suffix() && k.suffix().is_empty() && k.suffix_len() == 0, "from_ikey({v:x})");
                ck!(st, k.suffix_start() == len, "from_ikey({v:x}): suffix_start {} instead of {len}", k.suffix_start());
                let b = v.to_be_bytes();
                ck!(st, Key::new(&b).ikey() == v && Key::new(&b[..len]).ikey() == v, "the bytes of {v:x} read back");
            }
        }
    }
    Ok(())
}
pub fn parts() -> Vec<Part> {
    vec![
        part("shifts", "every length 0 to 256, five contents: every slice reached by single and multiple shifts and back, every read offset; longer keys refused", shifts),
        part("compare", "all pairs of about 800 keys of up to 18 bytes, direct and after one or two shifts", compare),
        part("ikeys", "16,384 slice values of two bits, and their negations", ikeys),
    ]
}
