//! Scenario families: a starting tree, and what two or three threads do to it.
use crate::exec::*;

pub fn k8(n: u64) -> K {
    n.to_be_bytes().to_vec()
}
/// 8-byte prefix + tail
pub fn px(p: &str, tail: &[u8]) -> K {
    let mut v = p.as_bytes().to_vec();
    assert_eq!(v.len(), 8);
    v.extend_from_slice(tail);
    v
}
pub fn seq(n: u64, step: u64) -> Vec<K> {
    (1..=n).map(|i| k8(i * step)).collect()
}
fn s(name: &str, pre: Vec<K>, th: Vec<Vec<Op>>, after: Vec<K>) -> Scn {
    Scn { name: name.into(), kind: Kind::Arc, pre, th, probe: vec![], after, fam: "" }
}
fn ins(k: K) -> Op {
    Op::Ins(k)
}
fn get(k: K) -> Op {
    Op::Get(k)
}
fn rf(k: K) -> Op {
    Op::Ref(k)
}

/// Operations that stay inside one leaf.
pub fn leaf_ops() -> Vec<Scn> {
    let mut v = vec![
        s("leaf/same-key-2", vec![], vec![vec![ins(k8(5)), get(k8(5))], vec![ins(k8(5)), get(k8(5))]], vec![k8(4)]),
        s("leaf/cross", vec![], vec![vec![ins(k8(1)), get(k8(2))], vec![ins(k8(2)), get(k8(1))]], vec![k8(3)]),
        s("leaf/order", vec![k8(5)], vec![vec![ins(k8(3)), ins(k8(7))], vec![get(k8(7)), get(k8(3)), rf(k8(5))]], vec![k8(4)]),
        s("leaf/update-read", vec![k8(5), k8(9)], vec![vec![ins(k8(5)), ins(k8(5))], vec![get(k8(5)), rf(k8(5))]], vec![k8(4)]),
        s("leaf/update-update", vec![k8(5), k8(9)], vec![vec![Op::InsG(k8(5)), ins(k8(9))], vec![ins(k8(9)), ins(k8(5))]], vec![]),
        s("leaf/3-writers", vec![k8(5)], vec![vec![ins(k8(5))], vec![ins(k8(5))], vec![ins(k8(4))]], vec![]),
        s("leaf/3-mixed", vec![], vec![vec![ins(k8(5))], vec![ins(k8(6))], vec![get(k8(5)), get(k8(6))]], vec![]),
        s("leaf/short-keys", vec![vec![], vec![0]], vec![vec![ins(vec![0, 0]), ins(vec![])], vec![get(vec![0, 0]), rf(vec![]), Op::GetG(vec![0])]], vec![vec![0, 0, 0]]),
        s("leaf/suffix-neighbours", vec![px("aaaaaaaa", b"one"), px("bbbbbbbb", b"two")],
            vec![vec![ins(px("abababab", b"a much longer suffix than before")), ins(px("bbbbbbbb", b"two"))],
                 vec![get(px("aaaaaaaa", b"one")), rf(px("bbbbbbbb", b"two")), get(px("abababab", b"a much longer suffix than before"))]],
            vec![px("cccccccc", b"x")]),
        s("leaf/suffix-writers", vec![px("mmmmmmmm", b"mid")],
            vec![vec![ins(px("aaaaaaaa", b"first"))], vec![ins(px("zzzzzzzz", b"last!")), get(px("aaaaaaaa", b"first"))]], vec![px("nnnnnnnn", b"n")]),
    ];
    for x in &mut v {
        x.probe.push(k8(77));
    }
    v
}

/// A full leaf that is the root: the first insert splits it and creates a new root.
pub fn root_leaf_split() -> Vec<Scn> {
    let pre = seq(24, 10);
    let mut v = Vec::new();
    for (wn, w) in [("front", 5u64), ("mid", 125), ("end", 245), ("edge", 131)] {
        for (on, o) in [
            ("get-lo", vec![get(k8(10)), rf(k8(240))]),
            ("get-mid", vec![get(k8(130)), get(k8(120))]),
            ("get-new", vec![get(k8(w)), rf(k8(w))]),
            ("ins-lo", vec![ins(k8(15)), get(k8(15))]),
            ("ins-hi", vec![ins(k8(235)), get(k8(235))]),
            ("ins-same", vec![ins(k8(w)), get(k8(10))]),
            ("upd-moved", vec![ins(k8(240)), ins(k8(10))]),
        ] {
            v.push(s(&format!("rootsplit/{wn}/{on}"), pre.clone(), vec![vec![ins(k8(w)), get(k8(w))], o], vec![k8(126), k8(236), k8(12)]));
        }
    }
    v.push(s("rootsplit/3", pre.clone(), vec![vec![ins(k8(125))], vec![ins(k8(126))], vec![get(k8(130))]], vec![k8(11)]));
    v.push(s("rootsplit/3w", pre.clone(), vec![vec![ins(k8(5))], vec![ins(k8(245))], vec![ins(k8(125))]], vec![k8(11)]));
    v
}

/// Two full neighbouring leaves under one internode.
pub fn leaf_split() -> Vec<Scn> {
    // ascending order leaves 10..=120 in the left leaf and 130..=250 in the right one; then both are filled
    let mut pre = seq(25, 10);
    pre.extend((1..=12).map(|i| k8(i * 10 + 5)));
    pre.extend((13..=23).map(|i| k8(i * 10 + 5)));
    let mut v = Vec::new();
    for (wn, a, b) in [("both", 62u64, 192u64), ("left", 62, 112), ("right", 192, 193), ("bound", 129, 132), ("lowest", 7, 131)] {
        v.push(s(&format!("leafsplit/{wn}/ww"), pre.clone(), vec![vec![ins(k8(a)), get(k8(a))], vec![ins(k8(b)), get(k8(a))]], vec![k8(236), k8(457), k8(64)]));
        v.push(s(&format!("leafsplit/{wn}/wr"), pre.clone(), vec![vec![ins(k8(a)), ins(k8(b))], vec![get(k8(230)), get(k8(250)), rf(k8(120))]], vec![k8(236), k8(457)]));
        v.push(s(&format!("leafsplit/{wn}/wwr"), pre.clone(), vec![vec![ins(k8(a))], vec![ins(k8(b))], vec![get(k8(240)), rf(k8(a))]], vec![k8(236), k8(64)]));
    }
    v
}

/// `n` ascending keys (leaves keep 12 keys each), then leaf `j` of every `full` is filled up to 24.
pub fn wide(n: u64, full: &[u64]) -> Vec<K> {
    let mut v = seq(n, 100);
    for &j in full {
        v.extend((1..=12).map(|i| k8((12 * j + i) * 100 + 50)));
    }
    v
}
/// a new key in the middle of leaf `j`
fn at(j: u64, d: u64) -> K {
    k8((12 * j + 6) * 100 + d)
}

/// A leaf split that has to insert into, or split, the internodes above it.
pub fn inode_split() -> Vec<Scn> {
    let mut v = Vec::new();
    // room in the root internode: separators and children are shifted in place
    let pre = seq(60, 10);
    v.push(s("inode/shift/read", pre.clone(), vec![[101u64, 102, 103, 112, 113, 114, 115, 116, 117, 118, 119, 121, 122, 123, 124].map(|k| ins(k8(k))).to_vec(), vec![get(k8(240))]], vec![k8(126)]));
    let mut pre = pre;
    pre.extend((1..=12).map(|i| k8((12 + i) * 10 + 5)));
    let w = k8(182);
    v.push(s("inode/shift/one", pre.clone(), vec![vec![ins(w.clone())], vec![get(k8(10)), get(k8(180)), get(k8(300)), get(k8(600))]], vec![k8(126)]));
    v.push(s("inode/shift/ww", pre.clone(), vec![vec![ins(w.clone())], vec![ins(k8(183)), get(k8(240)), get(w.clone())]], vec![k8(126)]));
    let mut pre2 = pre;
    pre2.extend((1..=12).map(|i| k8((24 + i) * 10 + 5)));
    v.push(s("inode/shift/two", pre2, vec![vec![ins(w.clone()), get(k8(360))], vec![ins(k8(302)), get(k8(240))]], vec![k8(126)]));
    // the root internode is full (16 leaves)
    for (wn, j) in [("low", 0u64), ("mid", 8), ("high", 14)] {
        let o = (j + 7) % 15;
        let pre = wide(204, &[j, o]);
        let (lo, mi, hi) = (k8(100), k8(100 * 100), k8(204 * 100));
        let w = at(j, 25);
        v.push(s(&format!("inode/{wn}/read"), pre.clone(), vec![vec![ins(w.clone())], vec![get(lo), get(mi), get(hi), get(at(j, 0))]], vec![at(j, 26), at(o, 26)]));
        v.push(s(&format!("inode/{wn}/readnew"), pre.clone(), vec![vec![ins(w.clone())], vec![rf(at(j, 100)), get(w.clone()), get(k8(9600)), get(k8(10900))]], vec![at(j, 26), at(o, 26)]));
        v.push(s(&format!("inode/{wn}/same-leaf"), pre.clone(), vec![vec![ins(w.clone())], vec![ins(at(j, 75)), get(w.clone())]], vec![at(j, 26), at(o, 26)]));
        v.push(s(&format!("inode/{wn}/other-leaf"), pre.clone(), vec![vec![ins(w.clone()), get(at(o, 25))], vec![ins(at(o, 25)), get(w)]], vec![at(j, 26), at(o, 26)]));
    }
    // the internode that must split has a parent internode
    for (wn, j) in [("low", 9u64), ("mid", 16), ("high", 23)] {
        let o = 9 + (j - 9 + 8) % 15;
        let pre = wide(312, &[j, o]);
        let w = at(j, 25);
        v.push(s(&format!("inode2/{wn}/read"), pre.clone(), vec![vec![ins(w.clone())], vec![get(k8(100)), get(at(j, 100)), get(k8(100 * 12 * 17)), get(k8(31200))]], vec![at(j, 26)]));
        v.push(s(&format!("inode2/{wn}/other-leaf"), pre.clone(), vec![vec![ins(w.clone())], vec![ins(at(o, 25)), get(w.clone())]], vec![at(j, 26), at(o, 26)]));
        v.push(s(&format!("inode2/{wn}/far-leaf"), wide(312, &[j, 2]), vec![vec![ins(w)], vec![ins(at(2, 25)), get(k8(31200))]], vec![at(j, 26), at(2, 26)]));
    }
    v
}
/// Three levels of internodes; the root internode itself splits.
pub fn inode_split3() -> Vec<Scn> {
    let pre = wide(1824, &[]);
    let w = k8(182450);
    vec![
        s("inode3/read", pre.clone(), vec![vec![ins(w.clone())], vec![get(k8(100)), get(k8(100_000)), get(k8(182400))]], vec![at(3, 26)]),
        s("inode3/write", pre, vec![vec![ins(w.clone())], vec![ins(k8(182460)), get(w)]], vec![at(3, 26)]),
    ]
}

/// Creation of a deeper layer for keys sharing 8 bytes.
pub fn layer_new() -> Vec<Scn> {
    let p = "abcdefgh";
    let old = px(p, b"OLD");
    let new = px(p, b"NEW");
    let mut v = Vec::new();
    let l16 = |t: &[u8]| {
        let mut k = px(p, b"ijklmnop");
        k.extend_from_slice(t);
        k
    };
    for (n, pre, w) in [
        ("plain", vec![old.clone()], new.clone()),
        ("inline-twin", vec![px(p, b""), old.clone()], new.clone()),
        ("deep", vec![l16(b"x")], l16(b"y")),
        ("prefix-of-old", vec![l16(b"")], l16(b"y")),
        ("old-longer", vec![l16(b"yy")], l16(b"")),
    ] {
        let o = pre.last().unwrap().clone();
        let third = px(p, b"third");
        for (on, ops) in [
            ("get-old", vec![get(o.clone()), rf(o.clone())]),
            ("ref-old", vec![rf(o.clone())]),
            ("get-new", vec![get(w.clone()), get(o.clone())]),
            ("upd-old", vec![ins(o.clone()), get(o.clone())]),
            ("ins-same", vec![ins(w.clone()), get(o.clone())]),
            ("ins-third", vec![ins(third.clone()), get(w.clone())]),
            ("inline", vec![ins(px(p, b"")), get(px(p, b""))]),
            ("hold", vec![Op::Hold(o.clone(), vec![get(w.clone())])]),
        ] {
            v.push(s(&format!("layer/{n}/{on}"), pre.clone(), vec![vec![ins(w.clone()), get(w.clone())], ops], vec![px(p, b"after"), px(p, b"")]));
        }
    }
    v.push(s("layer/3", vec![old.clone()], vec![vec![ins(new.clone())], vec![ins(px(p, b"third"))], vec![get(old.clone())]], vec![]));
    v
}

/// A layer whose own root leaf is full.
pub fn layer_split() -> Vec<Scn> {
    let p = "layerpfx";
    let k = |n: u64| px(p, &k8(n));
    let pre: Vec<K> = (1..=24).map(|i| k(i * 10)).collect();
    let mut v = Vec::new();
    for (wn, w) in [("front", 5u64), ("mid", 125), ("end", 245)] {
        for (on, o) in [
            ("get", vec![get(k(10)), rf(k(240))]),
            ("ins-lo", vec![ins(k(15)), get(k(240))]),
            ("ins-hi", vec![ins(k(235)), get(k(w))]),
            ("ins-same", vec![ins(k(w)), get(k(10))]),
        ] {
            v.push(s(&format!("layersplit/{wn}/{on}"), pre.clone(), vec![vec![ins(k(w)), get(k(w))], o], vec![k(126), k(236), px(p, b"")]));
        }
    }
    // layer with an internode: split a leaf below it
    let pre2: Vec<K> = (1..=48).map(|i| k(i * 10)).collect();
    v.push(s("layersplit/inner", pre2.clone(), vec![vec![ins(k(115)), ins(k(455))], vec![get(k(460)), get(k(230))]], vec![k(11)]));
    v.push(s("layersplit/inner-ww", pre2, vec![vec![ins(k(455))], vec![ins(k(335)), get(k(480))]], vec![k(11)]));
    v
}

/// Two trees of different layers grow a level, split or get a layer at the same time.
pub fn growth_pairs() -> Vec<Scn> {
    let mut v = Vec::new();
    let main = |n: u64| k8(n);
    let sub = |n: u64| px("growsub1", &k8(n));
    let sub2 = |n: u64| px("growsub2", &k8(n));
    let deep = |n: u64| px("growsub1", &px("deeperst", &k8(n)));
    let places: [(&str, &dyn Fn(u64) -> K); 4] = [("main", &main), ("sub", &sub), ("sub2", &sub2), ("deep", &deep)];
    // a root leaf becomes full and splits; a leaf splits below an internode; a key becomes a layer
    for (x, y) in [(0, 1), (1, 2), (1, 3), (0, 3)] {
        let ((xn, a), (yn, b)) = (places[x], places[y]);
        for (en, n) in [("roots", 24u64), ("leaves", 48)] {
            let mut pre: Vec<K> = (1..=n).map(|i| b(i * 10)).collect();
            // the layer itself takes a slot of the tree above it
            let m = if x == 0 || y == 3 { n - 1 } else { n };
            pre.extend((1..=m).map(|i| a(i * 10)));
            let (w, u) = (a(if n == 24 { 125 } else { 475 }), b(if n == 24 { 125 } else { 475 }));
            v.push(s(&format!("pairs/{en}/{xn}-{yn}"), pre.clone(), vec![vec![ins(w.clone()), get(u.clone())], vec![ins(u.clone()), get(w.clone())]], vec![a(126), b(126), a(476), b(476)]));
        }
    }
    let c = |p: &str, t: &str| px(p, t.as_bytes());
    v.push(s("pairs/layers/main-main", vec![c("newlayra", "one"), c("newlayrb", "one")], vec![vec![ins(c("newlayra", "two"))], vec![ins(c("newlayrb", "two")), get(c("newlayra", "one"))]], vec![c("newlayra", "x")]));
    v.push(s("pairs/layers/main-root", (1..=23).map(|i| k8(i * 10)).chain([c("newlayra", "one")]).collect(), vec![vec![ins(c("newlayra", "two"))], vec![ins(k8(125)), get(c("newlayra", "one"))]], vec![c("newlayra", "x")]));
    v
}

/// A leaf with a layer (or a key that is about to become one) among its slots splits.
pub fn layer_moved() -> Vec<Scn> {
    let mut v = Vec::new();
    let main = |n: u64| k8(n);
    let sub = |n: u64| px("movedpfx", &k8(n));
    let both: [(&str, &dyn Fn(u64) -> K); 2] = [("main", &main), ("sub", &sub)];
    let tail = |mut k: K, t: &[u8]| {
        k.extend_from_slice(t);
        k
    };
    for (place, k) in both {
        for (at, pos) in [("low", 1u64), ("left", 12), ("right", 13), ("high", 24)] {
            let lay = k(pos * 10);
            let others = || (1..=24u64).filter(move |&i| i != pos).map(|i| k(i * 10));
            let (a, b, c) = (tail(lay.clone(), b"aa"), tail(lay.clone(), b"bb"), tail(lay.clone(), b"cc"));
            let layer: Vec<K> = others().chain([a.clone(), b.clone()]).collect();
            let suffix: Vec<K> = others().chain([a.clone()]).collect();
            let w = k(125);
            for (n, pre) in [("layer", &layer), ("suffix", &suffix)] {
                for (on, o) in [
                    ("ins", vec![ins(c.clone()), get(a.clone())]),
                    ("upd", vec![ins(a.clone())]),
                    ("get", vec![get(a.clone()), rf(a.clone())]),
                    ("twin", vec![ins(lay.clone()), get(a.clone())]),
                ] {
                    if n == "layer" || on != "twin" {
                        v.push(s(&format!("moved/{place}/{n}/{at}/{on}"), pre.clone(), vec![vec![ins(w.clone()), get(a.clone())], o], vec![tail(lay.clone(), b"dd"), k(126)]));
                    }
                }
            }
        }
    }
    v
}

/// Groups of keys with equal 8-byte slices around the split point.
pub fn same_slice_split() -> Vec<Scn> {
    let z = |n: usize| vec![0u8; n];
    let mut v = Vec::new();
    // 0..=8 zero bytes share one slice; surround them
    let mut pre: Vec<K> = (0..=8).map(z).collect();
    pre.push(vec![0; 12]);
    pre.extend((1..=14).map(|i| k8(i * 10)));
    v.push(s("slices/low", pre.clone(), vec![vec![ins(k8(5)), get(z(3))], vec![get(z(8)), get(vec![0; 12]), rf(z(0))]], vec![k8(6)]));
    let mut pre2: Vec<K> = (1..=7).map(k8).collect();
    for n in 3..=8 {
        let mut k = vec![0, 0, 1];
        k.resize(n, 0);
        pre2.push(k);
    }
    pre2.push(vec![0, 0, 1, 0, 0, 0, 0, 0, 0]);
    pre2.extend((1..=10).map(|i| k8(0x0002_0000_0000_0000 + i)));
    assert_eq!(pre2.len(), 24);
    v.push(s("slices/mid", pre2.clone(), vec![vec![ins(k8(0x0001_ffff_0000_0000)), get(vec![0, 0, 1])], vec![get(vec![0, 0, 1, 0, 0, 0, 0, 0]), rf(vec![0, 0, 1, 0, 0, 0, 0, 0, 0])]], vec![vec![0, 0, 1, 0, 0, 0, 0, 0, 1]]));
    v.push(s("slices/mid-layer", pre2, vec![vec![ins(vec![0, 0, 1, 0, 0, 0, 0, 0, 9]), ins(k8(8))], vec![get(vec![0, 0, 1, 0, 0, 0, 0, 0, 0]), get(vec![0, 0, 1, 0, 0, 0, 0, 0])]], vec![k8(9)]));
    v
}

/// References borrowed under a guard while the value is replaced, moved or converted.
pub fn held_refs() -> Vec<Scn> {
    let p = "heldheld";
    let mut v = vec![
        s("held/update", vec![k8(5)], vec![vec![ins(k8(5)), ins(k8(5))], vec![Op::Hold(k8(5), vec![get(k8(5))])]], vec![]),
        s("held/own-update", vec![k8(5)], vec![vec![Op::Hold(k8(5), vec![ins(k8(5)), get(k8(5))])], vec![ins(k8(5))]], vec![]),
        s("held/layer", vec![px(p, b"a")], vec![vec![ins(px(p, b"b")), ins(px(p, b"a"))], vec![Op::Hold(px(p, b"a"), vec![get(px(p, b"b"))])]], vec![]),
        s("held/split", seq(24, 10), vec![vec![ins(k8(125)), ins(k8(200))], vec![Op::Hold(k8(200), vec![get(k8(125))])]], vec![]),
        s("held/guarded-reader", vec![k8(5), px(p, b"s1")], vec![vec![ins(k8(5)), ins(px("otherone", b"some long suffix here")), ins(px("otherone", b"some long suffix here"))], vec![Op::Guarded(vec![get(px(p, b"s1")), Op::Hold(k8(5), vec![])])]], vec![]),
        s("held/three", vec![k8(5)], vec![vec![ins(k8(5))], vec![ins(k8(5))], vec![Op::Hold(k8(5), vec![])]], vec![]),
    ];
    for x in &mut v {
        x.probe.push(k8(1));
    }
    v
}

/// len() and is_empty() next to inserts.
pub fn lengths() -> Vec<Scn> {
    let l = Op::Len;
    let p = "lenlenle";
    let mut v = vec![
        s("len/first", vec![], vec![vec![ins(k8(5)), l.clone()], vec![l.clone(), l.clone()]], vec![]),
        s("len/first-two", vec![], vec![vec![ins(k8(5))], vec![ins(k8(6)), l.clone()], vec![l.clone()]], vec![]),
        s("len/same", vec![], vec![vec![ins(k8(5)), l.clone()], vec![ins(k8(5)), l.clone()]], vec![]),
        s("len/one", vec![k8(5)], vec![vec![ins(k8(5)), ins(k8(6)), l.clone()], vec![l.clone(), l.clone()]], vec![]),
        s("len/rootsplit", seq(24, 10), vec![vec![ins(k8(125))], vec![l.clone(), l.clone()]], vec![]),
        s("len/rootsplit-w", seq(24, 10), vec![vec![ins(k8(125)), l.clone()], vec![ins(k8(126)), l.clone()]], vec![]),
        s("len/layer", vec![px(p, b"old")], vec![vec![ins(px(p, b"new")), l.clone()], vec![ins(px(p, b"old")), l.clone()]], vec![]),
        s("len/layersplit", (1..=24).map(|i| px(p, &k8(i * 10))).collect(), vec![vec![ins(px(p, &k8(125)))], vec![l.clone(), ins(px(p, &k8(126))), l.clone()]], vec![]),
        s("len/inode", wide(204, &[8]), vec![vec![ins(at(8, 25))], vec![l.clone(), l.clone()]], vec![]),
    ];
    for x in &mut v {
        x.probe.push(k8(77));
    }
    v
}
/// One operation delayed at any of its steps while another thread changes the tree a lot.
pub fn long_delay() -> Vec<Scn> {
    let mut v = Vec::new();
    let p = "longpref";
    let main = |n: u64| k8(n);
    let sub = |n: u64| px(p, &k8(n));
    let both: [(&str, &dyn Fn(u64) -> K); 2] = [("main", &main), ("sub", &sub)];
    for (place, k) in both {
        for (size, n) in [("leaf", 30u64), ("inode", 220), ("inode2", 420)] {
            for (order, up) in [("up", true), ("down", false)] {
                let pre: Vec<K> = [2_000_000u64, 1, 1_000_000].iter().map(|&x| k(x)).collect();
                let ks: Vec<u64> = (1..=n).map(|i| 1000 + if up { i } else { n + 1 - i } * 10).collect();
                let w: Vec<Op> = ks.iter().map(|&x| ins(k(x))).collect();
                let edge = 1000 + n * 5 + 3;
                for (on, o) in [
                    ("ins-right", vec![ins(k(1_500_000))]),
                    ("ins-inside", vec![ins(k(edge))]),
                    ("ins-left", vec![ins(k(500))]),
                    ("ins-same", vec![ins(k(1000 + n * 10))]),
                    ("upd", vec![ins(k(1_000_000))]),
                    ("get-right", vec![get(k(2_000_000)), rf(k(1))]),
                    ("ref-right", vec![rf(k(1_000_000))]),
                    ("get-inside", vec![get(k(1000 + n * 10))]),
                    ("hold", vec![Op::Hold(k(1_000_000), vec![get(k(1))])]),
                ] {
                    v.push(s(&format!("long/{place}/{size}/{order}/{on}"), pre.clone(), vec![o, w.clone()], vec![k(edge + 1), k(1_500_001)]));
                }
            }
        }
        // the key moves away further than anybody is willing to walk
        let pre: Vec<K> = [2_000_000u64, 1].iter().map(|&x| k(x)).collect();
        let w: Vec<Op> = (1..=1620u64).map(|i| ins(k(1000 + i))).collect();
        for (on, o) in [("ins", ins(k(1_500_000))), ("upd", ins(k(2_000_000))), ("get", get(k(2_000_000)))] {
            v.push(s(&format!("long/{place}/far/{on}"), pre.clone(), vec![vec![o], w.clone()], vec![k(1_500_001)]));
        }
    }
    // a split that is delayed while its result is filled and split again
    for (place, k) in both {
        let wide = |n: u64, full: u64| -> Vec<K> {
            let mut v: Vec<K> = (1..=n).map(|i| k(i * 1000)).collect();
            v.extend((1..=12).map(|i| k((12 * full + i) * 1000 + 500)));
            v
        };
        for (size, pre, j) in [("leaf", (1..=24u64).map(|i| k(i * 1000)).collect::<Vec<K>>(), 0u64), ("first", wide(60, 0), 0), ("inner", wide(60, 2), 2), ("full-lo", wide(204, 1), 1), ("full-hi", wide(204, 14), 14), ("two", wide(312, 16), 16)] {
            let at = |i: u64| (12 * j + i) * 1000;
            let mid = at(if j == 0 && size == "leaf" { 12 } else { 6 }) + 250;
            let top = at(if size == "leaf" { 24 } else { 12 });
            for (wn, n, base) in [("right", 13u64, top - 999), ("right", 40, top - 999), ("left", 40, at(1) + 1), ("centre", 40, mid + 1), ("centre", 220, mid + 1)] {
                let w: Vec<Op> = (0..n).map(|i| ins(k(base + i))).collect();
                v.push(s(&format!("long/resplit/{place}/{size}/{wn}{n}"), pre.clone(), vec![vec![ins(k(mid))], w], vec![k(mid - 1), k(base + 300)]));
            }
        }
    }
    // a key that becomes a layer, which grows
    for (on, o) in [("get", vec![get(px(p, b"old"))]), ("ref", vec![rf(px(p, b"old"))]), ("upd", vec![ins(px(p, b"old"))]), ("ins", vec![ins(px(p, b"new"))]), ("hold", vec![Op::Hold(px(p, b"old"), vec![])])] {
        let w: Vec<Op> = (1..=60u64).map(|i| ins(px(p, &k8(i * 10)))).collect();
        v.push(s(&format!("long/layer/{on}"), vec![px(p, b"old")], vec![o.clone(), w], vec![px(p, b"after")]));
        let deep: Vec<Op> = (1..=30u64).map(|i| { let mut k = px(p, b"oldoldol"); k.extend(std::iter::repeat(b'd').take(i as usize * 6)); ins(k) }).collect();
        v.push(s(&format!("long/chain/{on}"), vec![px(p, b"old")], vec![o, deep], vec![px(p, b"after")]));
    }
    v
}

/// Two operations, each delayed at any of its steps, while a third thread changes the tree a lot.
pub fn long_delay2() -> Vec<Scn> {
    let mut v = Vec::new();
    let p = "longpref";
    let main = |n: u64| k8(n);
    let sub = |n: u64| px(p, &k8(n));
    let both: [(&str, &dyn Fn(u64) -> K); 2] = [("main", &main), ("sub", &sub)];
    for (place, k) in both {
        for (size, n) in [("leaf", 40u64), ("inode", 220)] {
            let pre: Vec<K> = [1u64, 500_000, 1_000_000].iter().map(|&x| k(x)).collect();
            let w: Vec<Op> = (1..=n).map(|i| ins(k(1000 + i * 10))).collect();
            let mid = 1000 + n * 5 + 3;
            let ops: Vec<(&str, Op)> = vec![
                ("new", ins(k(mid))),
                ("near", ins(k(mid + 1))),
                ("right", ins(k(600_000))),
                ("upd", ins(k(500_000))),
                ("get", get(k(500_000))),
                ("late", get(k(1000 + n * 10))),
            ];
            for (i, (an, a)) in ops.iter().enumerate() {
                for (bn, b) in &ops[i..] {
                    if matches!(a, Op::Get(_)) && matches!(b, Op::Get(_)) {
                        continue;
                    }
                    v.push(s(&format!("long2/{place}/{size}/{an}+{bn}"), pre.clone(), vec![vec![a.clone()], vec![b.clone()], w.clone()], vec![k(mid + 2)]));
                }
            }
        }
    }
    for (an, a) in [("get", get(px(p, b"old"))), ("upd", ins(px(p, b"old"))), ("ins", ins(px(p, b"new")))] {
        for (bn, b) in [("upd", ins(px(p, b"old"))), ("ins", ins(px(p, b"new2"))), ("long", ins(px(p, b"oldoldoldoldoldold")))] {
            let w: Vec<Op> = (1..=40u64).map(|i| ins(px(p, &k8(i * 10)))).collect();
            v.push(s(&format!("long2/layer/{an}+{bn}"), vec![px(p, b"old")], vec![vec![a.clone()], vec![b.clone()], w], vec![px(p, b"after")]));
        }
    }
    v
}

/// Suffix storage growing while it is being read.
pub fn suffix_growth() -> Vec<Scn> {
    let mut v = Vec::new();
    let names = ["aaaaaaaa", "bbbbbbbb", "cccccccc", "dddddddd", "eeeeeeee"];
    for (n, l) in [("short", 3usize), ("mid", 40), ("long", 200)] {
        let pre: Vec<K> = names[..3].iter().map(|p| px(p, &vec![b'x'; l])).collect();
        let wr = |c: u8| vec![ins(px(names[3], &vec![c; l])), ins(px(names[4], &vec![c; l + 30]))];
        v.push(s(&format!("suffix/{n}/read"), pre.clone(), vec![wr(b'y'), vec![get(pre[0].clone()), rf(pre[2].clone()), get(px(names[3], &vec![b'y'; l]))]], vec![px("ffffffff", &vec![b'z'; l])]));
        v.push(s(&format!("suffix/{n}/conflict"), pre.clone(), vec![vec![ins(px(names[0], &vec![b'w'; l + 1]))], vec![ins(px(names[0], &vec![b'v'; l + 1])), get(pre[0].clone())]], vec![px("ffffffff", &vec![b'z'; l])]));
        v.push(s(&format!("suffix/{n}/write"), pre.clone(), vec![wr(b'y'), vec![ins(px(names[3], &vec![b'y'; l])), get(pre[1].clone())]], vec![]));
    }
    // a full leaf of suffix keys: its suffixes move when it splits
    let pre: Vec<K> = (0..24u64).map(|i| { let mut k = k8((i + 1) * 10); k.extend_from_slice(format!("tail{i}").as_bytes()); k }).collect();
    let last = pre[23].clone();
    let first = pre[0].clone();
    let mid = pre[12].clone();
    let mut nk = k8(125);
    nk.extend_from_slice(b"new");
    v.push(s("suffix/split", pre.clone(), vec![vec![ins(nk.clone())], vec![get(first), rf(last.clone()), get(mid.clone())]], vec![px("ffffffff", b"q")]));
    v.push(s("suffix/split-w", pre, vec![vec![ins(nk)], vec![ins(last), ins(mid)]], vec![px("ffffffff", b"q")]));
    v
}

pub fn inline_twins(v: &[Scn], every: usize) -> Vec<Scn> {
    v.iter().step_by(every).map(|x| Scn { name: format!("inline-{}", x.name), kind: Kind::Inline, ..x.clone() }).collect()
}

fn fam(v: &mut Vec<Scn>, f: &'static str, mut n: Vec<Scn>) {
    for x in &mut n {
        x.fam = f;
    }
    v.extend(n)
}

/// The named scenarios.
pub fn named() -> Vec<Scn> {
    let mut v = Vec::new();
    fam(&mut v, "leaf", leaf_ops());
    fam(&mut v, "held", held_refs());
    fam(&mut v, "suffix", suffix_growth());
    fam(&mut v, "layer", layer_new());
    fam(&mut v, "moved", layer_moved());
    fam(&mut v, "slices", same_slice_split());
    fam(&mut v, "rootsplit", root_leaf_split());
    fam(&mut v, "leafsplit", leaf_split());
    fam(&mut v, "layersplit", layer_split());
    fam(&mut v, "pairs", growth_pairs());
    fam(&mut v, "inode", inode_split());
    fam(&mut v, "inode3", inode_split3());
    fam(&mut v, "len", lengths());
    let i = inline_twins(&v, 5);
    v.extend(i);
    v
}
/// Explored only by delaying the first thread.
pub fn long() -> Vec<Scn> {
    let mut v = Vec::new();
    fam(&mut v, "long", long_delay());
    fam(&mut v, "long2", long_delay2());
    let i = inline_twins(&v, 7);
    v.extend(i);
    v
}

/// All programs over a small alphabet, on small starting trees.
pub fn programs() -> Vec<Scn> {
    let mut v = Vec::new();
    let p = "samepref";
    let deep = |t: &[u8]| {
        let mut k = px(p, b"8morebyt");
        k.extend_from_slice(t);
        k
    };
    let states: Vec<(&str, Vec<K>, K, K)> = vec![
        ("empty", vec![], k8(5), k8(6)),
        ("one", vec![k8(5)], k8(5), k8(6)),
        ("lens", vec![vec![]], vec![], vec![0]),
        ("room1", seq(23, 10), k8(55), k8(195)),
        ("full", seq(24, 10), k8(55), k8(195)),
        ("fullupd", seq(24, 10), k8(190), k8(195)),
        ("conflict", vec![px(p, b"old")], px(p, b"old"), px(p, b"new")),
        ("twin", vec![px(p, b"")], px(p, b"x"), px(p, b"y")),
        ("layer", vec![px(p, b"a"), px(p, b"b")], px(p, b"a"), px(p, b"c")),
        ("deep", vec![deep(b"1")], deep(b"1"), deep(b"2")),
        ("deepnew", vec![], deep(b"1"), deep(b"2")),
        ("suffix", vec![px("aaaaaaaa", b"sfx")], px("aaaaaaaa", b"sfx"), px("bbbbbbbb", b"sfx2")),
    ];
    for (sn, pre, a, b) in states {
        let alpha = [("ga", get(a.clone())), ("gb", get(b.clone())), ("ra", rf(a.clone())), ("ia", ins(a.clone())), ("ib", ins(b.clone()))];
        let n = alpha.len();
        let writes = |i: usize| i >= 3;
        for x in 0..n * n {
            for y in x..n * n {
                let (x1, x2, y1, y2) = (x / n, x % n, y / n, y % n);
                if !(writes(x1) || writes(x2) || writes(y1) || writes(y2)) {
                    continue;
                }
                let name = format!("prog2/{sn}/{},{}|{},{}", alpha[x1].0, alpha[x2].0, alpha[y1].0, alpha[y2].0);
                let mut sc = s(&name, pre.clone(), vec![vec![alpha[x1].1.clone(), alpha[x2].1.clone()], vec![alpha[y1].1.clone(), alpha[y2].1.clone()]], vec![]);
                sc.fam = "prog2";
                v.push(sc);
            }
        }
        for x in 0..n {
            for y in x..n {
                for z in y..n {
                    if !(writes(x) || writes(y) || writes(z)) {
                        continue;
                    }
                    let name = format!("prog3/{sn}/{}|{}|{}", alpha[x].0, alpha[y].0, alpha[z].0);
                    let mut sc = s(&name, pre.clone(), [x, y, z].iter().map(|&i| vec![alpha[i].1.clone()]).collect(), vec![]);
                    sc.fam = "prog3";
                    v.push(sc);
                }
            }
        }
    }
    v
}

pub fn all() -> Vec<Scn> {
    let mut v = named();
    v.extend(programs());
    v.extend(long());
    v
}
