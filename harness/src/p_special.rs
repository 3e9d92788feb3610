//! Inputs found by search (about 2^32 trials each) whose digests begin or end with four zero or
//! 0xff bytes, and pairs of inputs whose digests share their first or last eight bytes: code that
//! looks at part of a digest only is caught on them. Every table entry is verified when the space
//! that uses it is built.
use crate::engine::*;
use crate::p_sparse::{self, alphabet, seq_of, seq_space, shows, Live, Op};
use crate::p_sum::SumTree;
use crate::refm::*;
use crate::Tier;
use crate::{p_binary, p_sum};
use fuel_merkle::sparse;

/// (digest, text in hexadecimal digits): the digest of the text starts or ends with 4 zero bytes
const ZEROS: &[(&str, &str)] = &[
    ("val", "14ba88787"),
    ("val", "2c1be7c3"),
    ("leaf0", "1d905a09"),
    ("leaf0", "cddce589"),
    ("leaf5", "efd49c67"),
    ("leaf5", "17f003542"),
    ("leaff", "1618c50af"),
    ("leaff", "6bd05deb"),
    ("root2", "10cee0e86"),
    ("root2", "1ba8ac01"),
    ("bleaf", "9d191e76"),
    ("bleaf", "3b15fae4"),
    ("broot", "7950cc50"),
    ("broot", "1aa9081d"),
    ("sleaf", "9f9736d7"),
    ("sleaf", "1cf03157e"),
    ("sroot", "d5e7df4f"),
    ("sroot", "f356fc2c"),
];
const ONES: &[(&str, &str)] = &[("val", "1a0459e89"), ("val", "103b99c87")];
/// two texts whose digests share the first or last eight bytes
const PAIRS: &[(&str, &str, &str)] = &[
    ("val", "a0b17c9468aa0c3f", "9e18ac46e0575a02"),
    ("val", "3edc763501cc087b", "bca4c6ab3d044950"),
    ("leaf5", "1597078d675b409", "ab110c9e181225b"),
];

pub const FEE: u64 = 7;
fn digest(kind: &str, d: &[u8]) -> H {
    let k = |b: u8| sp_leaf(&[b; 32], &value_digest(d));
    match kind {
        "val" => value_digest(d),
        "leaf0" => k(0),
        "leaf5" => k(0x55),
        "leaff" => k(0xff),
        "root2" => sp_root(&SMap::from([([0; 32], value_digest(b"a")), ([0xff; 32], value_digest(d))])),
        "bleaf" => leaf(d),
        "broot" => mth(&[leaf(b"a"), leaf(d)]),
        "sleaf" => sum_leaf(FEE, d).hash,
        "sroot" => sum_root(&[sum_leaf(FEE, b"a"), sum_leaf(FEE, d)]).1,
        _ => unreachable!(),
    }
}
fn verify() {
    for (table, b) in [(ZEROS, 0u8), (ONES, 0xff)] {
        for (k, d) in table {
            let h = digest(k, d.as_bytes());
            assert!(h[..4] == [b; 4] || h[28..] == [b; 4], "{k} {d}");
        }
    }
    for (k, a, b) in PAIRS {
        let (x, y) = (digest(k, a.as_bytes()), digest(k, b.as_bytes()));
        assert!(a != b && (x[..8] == y[..8] || x[24..] == y[24..]), "{k} {a} {b}");
    }
}
/// the texts whose digests of one of these kinds are special, and "a"
pub fn texts(kinds: &[&str]) -> Vec<Vec<u8>> {
    verify();
    let mut v = vec![b"a".to_vec()];
    for (k, d) in ZEROS.iter().chain(ONES) {
        if kinds.contains(k) {
            v.push(d.as_bytes().to_vec());
        }
    }
    for (k, a, b) in PAIRS {
        if kinds.contains(k) {
            v.push(a.as_bytes().to_vec());
            v.push(b.as_bytes().to_vec());
        }
    }
    v
}
fn sparse_texts() -> Vec<Vec<u8>> {
    texts(&["val", "leaf0", "leaf5", "leaff", "root2"])
}
fn sparse_alphabet() -> Vec<Op> {
    let mut al = vec![];
    for k in [[0u8; 32], [0x55; 32], [0xff; 32]] {
        al.extend(sparse_texts().into_iter().map(|x| Op::Up(k, x)));
        al.push(Op::Del(k));
    }
    al.push(Op::Reload);
    al
}
pub fn sparse_space<'a>(t: Tier, each: impl Fn(&mut Live, &[Op], &SMap, &Acc) -> Res + Sync + 'a) -> Space<'a> {
    let al = sparse_alphabet();
    let len = t.pick(3, 4);
    seq_space(format!("all sequences of length {len} over three keys and values with special digests"), al, len, each)
}
/// a few operations over values with special digests, for the checks that do more per history
pub fn sparse_few() -> Vec<Op> {
    let mut al = vec![];
    for (k, kind) in [([0u8; 32], "leaf0"), ([0x55; 32], "leaf5"), ([0xff; 32], "leaff"), ([0xff; 32], "root2"), ([0xff; 32], "val")] {
        al.extend(texts(&[kind]).into_iter().map(|x| Op::Up(k, x)));
        al.push(Op::Del(k));
    }
    let mut out: Vec<Op> = vec![];
    for o in al {
        if !out.contains(&o) {
            out.push(o);
        }
    }
    out
}

/// Keys that share their first or last bytes with what the tree stores.
pub fn near_digests<'a>(t: Tier) -> Space<'a> {
    let (k1, k2) = (p_sparse::base(4), flip(&p_sparse::base(4), 2));
    let vd = value_digest(b"a");
    let maps = [SMap::from([(k1, vd)]), SMap::from([(k2, vd)]), SMap::from([(k1, vd), (k2, vd)])];
    let mut ds: Vec<H> = vec![vd, ZERO, empty()];
    for m in &maps {
        ds.extend(sp_nodes(m).into_iter().map(|x| x.0));
    }
    ds.sort();
    ds.dedup();
    let mut keys: Vec<H> = vec![];
    for d in &ds {
        for n in [1usize, 2, 4, 8, 16, 20, 24, 28, 30, 31] {
            for (a, b) in [(*d, base_other(d)), (base_other(d), *d)] {
                let mut k = a;
                k[n..].copy_from_slice(&b[n..]);
                keys.push(k);
            }
        }
        let mut r = *d;
        r.reverse();
        keys.extend([r, d.map(|x| !x), sp_leaf(d, &vd)]);
    }
    let len = t.pick(4, 5);
    let nops = alphabet(&[k1, k2, ZERO], 1, false, true).len() as u64;
    let per = nops.pow(len as u32);
    let keys2 = keys.clone();
    let ops = move |keys: &[H], i: u64| seq_of(&alphabet(&[k1, k2, keys[(i / per) as usize]], 1, false, true), i % per, len);
    let ops2 = ops.clone();
    Space::new(
        format!("all scripts of length {len} over two keys and one of {} that shares bytes with a digest", keys.len()),
        keys.len() as u64 * per,
        move |i, acc| {
            let (ops, from) = ops(&keys, i);
            let mut l = Live::new();
            for (p, op) in ops.iter().enumerate() {
                l.apply(op).map_err(|e| format!("after [{}]: {e}", shows(&ops[..p])))?;
                if p >= from {
                    acc.step(1);
                    acc.state(&l.state());
                    l.check().map_err(|e| format!("after [{}]: {e}", shows(&ops[..=p])))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| shows(&ops2(&keys2, i).0),
    )
}
fn base_other(d: &H) -> H {
    sha(&[b"other", d])
}

/// All lists of leaves with special digests; `each` sees every new prefix.
pub fn binary_space<'a>(t: Tier, each: impl Fn(&p_binary::Store, &mut p_binary::Tree, &BinModel, &Acc) -> Res + Sync + 'a) -> Space<'a> {
    let al = texts(&["bleaf", "broot"]);
    let b = al.len() as u64;
    let len = t.pick(6, 7);
    let al2 = al.clone();
    Space::new(
        format!("all lists of length {len} over {b} leaves with special digests"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let st = p_binary::Store::new();
            let mut tree = p_binary::Tree::new(st.clone());
            let mut m = BinModel::new();
            for (p, &x) in d.iter().enumerate() {
                p_binary::push(&mut tree, &al[x])?;
                m.push(&al[x]);
                if p >= from {
                    acc.step(1);
                    acc.state(&m.root());
                    each(&st, &mut tree, &m, acc).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| {
            format!("leaves {:?}", digits(i, b, len).iter().map(|&x| String::from_utf8_lossy(&al2[x]).to_string()).collect::<Vec<_>>())
        },
    )
}
pub fn sum_space<'a>(t: Tier, each: impl Fn(&mut SumTree, &[SNode], &Acc) -> Res + Sync + 'a) -> Space<'a> {
    let al = texts(&["sleaf", "sroot"]);
    let b = al.len() as u64;
    let len = t.pick(6, 7);
    let al2 = al.clone();
    Space::new(
        format!("all lists of length {len} over {b} leaves with special digests"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let mut tree = p_sum::new_tree();
            let mut l = vec![];
            for (p, &x) in d.iter().enumerate() {
                p_sum::push(&mut tree, &mut l, FEE, &al[x])?;
                if p >= from {
                    acc.step(1);
                    acc.state(&sum_root(&l));
                    each(&mut tree, &l, acc).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| {
            format!("leaves {:?}", digits(i, b, len).iter().map(|&x| String::from_utf8_lossy(&al2[x]).to_string()).collect::<Vec<_>>())
        },
    )
}
/// All maps over three keys and values with special digests, made by fresh in-memory trees.
pub fn maps<'a>() -> (Vec<Vec<u8>>, impl Fn(&[usize]) -> H + Sync + 'a) {
    let vals = sparse_texts();
    let v2 = vals.clone();
    (vals, move |d: &[usize]| {
        let mut t = sparse::in_memory::MerkleTree::new();
        for (k, &x) in [[0u8; 32], [0x55; 32], [0xff; 32]].iter().zip(d) {
            if x > 0 {
                t.update(k, &v2[x - 1]);
            }
        }
        t.root()
    })
}
