//! C01, C08, C15, C21, C22: contents of structured lengths and, for each, many others that differ
//! from it a little, somewhere, or that are made from it (its digests, its parts, its bytes in
//! another order). Hashing that skips, samples, normalises or remembers part of a content mistakes
//! one of them for another.
use crate::engine::*;
use crate::p_binary::{same_root, Store, Tree};
use crate::p_sparse::{Live, Op};
use crate::p_sum;
use crate::refm::*;
use crate::Tier;
use fuel_merkle::{binary, sparse};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn lens(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = t.pick((0..=136).collect(), (0..=300).collect());
    for k in 8..=t.pick(16, 20) {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([200, 300, 400, 600, 1000, 1500, 3000, 5000, 10_000, 20_000, 50_000, 100_000]);
    if t == Tier::Thorough {
        v.extend((8..20).flat_map(|k| [3usize << (k - 1), 5 << (k - 2), 7 << (k - 2)]));
    }
    v.sort();
    v.dedup();
    v
}
fn base(len: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ 0x5a).collect()
}
/// a content and its relatives, all different
pub fn family(len: usize) -> Vec<Vec<u8>> {
    let b = base(len);
    let mut v = vec![b.clone()];
    // one byte changed, at either end, around blocks and fractions
    let mut at: Vec<usize> = vec![];
    for p in [0, 1, 3, 4, 7, 8, 9, 15, 16, 20, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 100, 119, 127, 128, 129, 255, 256, 257] {
        at.extend([p, len.wrapping_sub(p + 1)]);
    }
    for k in 9..20 {
        at.extend([(1 << k) - 1, 1 << k]);
    }
    for n in [3, 5, 7, 8] {
        at.extend((1..n).map(|i| len * i / n));
    }
    at.extend([len / 2, (len / 2).wrapping_sub(1)]);
    for p in at {
        if p < len {
            for m in [0x01, 0x20, 0x80] {
                let mut c = b.clone();
                c[p] ^= m;
                v.push(c);
            }
        }
    }
    // shorter and longer
    for n in [1, 2, 8, 16, 32, 64] {
        if n <= len {
            v.push(b[n..].to_vec());
            v.push(b[..len - n].to_vec());
        }
        v.push([&b[..], &vec![0; n]].concat());
        v.push([&vec![0; n], &b[..]].concat());
    }
    for x in [0x80u8, 0xff, b' ', b'\n', b'0', 1] {
        v.push([&b[..], &[x]].concat());
        v.push([&[x], &b[..]].concat());
    }
    v.extend([[&b[..], &b[..]].concat(), b[..len / 2].to_vec(), b[len / 2..].to_vec()]);
    // the padding SHA-256 would append
    let mut pad = b.clone();
    pad.push(0x80);
    while pad.len() % 64 != 56 {
        pad.push(0);
    }
    pad.extend((len as u64 * 8).to_be_bytes());
    v.push(pad);
    // the same bytes in another order, repeated, in another notation
    let mut r = b.clone();
    r.reverse();
    v.push(r);
    for n in [1, 8, 32, len / 2] {
        if n < len {
            let mut r = b.clone();
            r.rotate_left(n);
            v.push(r);
        }
    }
    for (i, j) in [(0, 1), (len / 2, len / 2 + 1), (0, len.wrapping_sub(1)), (len / 3, len / 2)] {
        if i < len && j < len {
            let mut r = b.clone();
            r.swap(i, j);
            v.push(r);
        }
    }
    let mut s = b.clone();
    s.sort();
    v.push(s);
    v.extend([b.iter().map(|x| !x).collect::<Vec<u8>>(), vec![0; len], vec![1; len], vec![0xff; len], vec![b' '; len]]);
    v.push(b.iter().map(|x| x | 0x20).collect());
    v.push(hex(&b).into_bytes());
    // digests of it
    let d = sha(&[&b]);
    let n = (len as u64).to_be_bytes();
    for h in [d, sha(&[&d]), leaf(&b), leaf(&d), sum_leaf(p_special_fee(), &b).hash, sha(&[&n, &b]), sha(&[&b, &n]), sha(&[&[1], &b])] {
        v.extend([h.to_vec(), hex(&h).into_bytes(), [&n[..], &h].concat(), h[..20].to_vec()]);
        if len > 64 {
            v.extend([[&b[..32], &h].concat(), [&h, &b[len - 32..]].concat()]);
        }
    }
    if len > 64 {
        v.extend([[&b[..32], &b[len - 32..]].concat(), [&b[..64], &sha(&[&b[64..]])].concat(), [&sha(&[&b[..64]]), &b[64..]].concat()]);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
fn p_special_fee() -> u64 {
    crate::p_special::FEE
}
/// (length, the number of the content that comes first); of long ones only a few come first
fn cases(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for len in lens(t).into_iter().rev() {
        let n = family(len).len();
        let few = len > t.pick(80, 1030);
        v.extend((0..n).filter(|i| !few || *i < 2 || *i + 1 == n).map(|i| (len, i)));
    }
    v
}
pub fn space<'a>(what: &str, t: Tier, f: impl Fn(&[Vec<u8>], usize, &Acc) -> Res + Sync + 'a) -> Space<'a> {
    let cs = Arc::new(cases(t));
    let cs2 = cs.clone();
    Space::new(
        format!("{what}: contents of {} lengths, each before and after each of its relatives", lens(t).len()),
        cs.len() as u64,
        move |i, acc| {
            let (len, a) = cs[i as usize];
            let fam = family(len);
            acc.state(&(len, a));
            acc.step(fam.len() as u64 * 2);
            acc.trace(1);
            f(&fam, a, acc).map_err(|e| format!("contents of {len} bytes, number {a}: {e}"))
        },
        move |i| format!("contents of {} bytes, number {}", cs2[i as usize].0, cs2[i as usize].1),
    )
}
fn name(c: &[u8]) -> String {
    if c.len() > 40 {
        format!("{}..{} ({} bytes)", hex(&c[..8]), hex(&c[c.len() - 8..]), c.len())
    } else {
        hex(c)
    }
}

pub fn c08_content(t: Tier) -> Vec<Space<'static>> {
    vec![space("binary", t, |fam, a, acc| {
        let mut tree = Tree::new(Store::new());
        let mut m = BinModel::new();
        for b in fam {
            for c in [&fam[a], b] {
                crate::p_binary::push(&mut tree, c)?;
                m.push(c);
                same_root(&tree, &m.root()).map_err(|e| format!("after {} and {}: {e}", name(&fam[a]), name(b)))?;
            }
            acc.beat();
        }
        Ok(())
    })]
}
pub fn c15_content(t: Tier) -> Vec<Space<'static>> {
    vec![space("sum", t, |fam, a, acc| {
        let mut tree = p_sum::new_tree();
        let mut m = SumModel::default();
        for (i, b) in fam.iter().enumerate() {
            for (f, c) in [(3, &fam[a]), (3, b), (3 + i as u64 % 2, &fam[a]), (4, b)] {
                (tree.push)(f, c).map_err(|e| format!("push failed on a working store: {:?}", e))?;
                m.push(f, c);
                p_sum::same_pair(&mut tree, &m).map_err(|e| format!("after {} and {}: {e}", name(&fam[a]), name(b)))?;
            }
            acc.beat();
        }
        Ok(())
    })]
}
pub fn c01_content(t: Tier) -> Vec<Space<'static>> {
    vec![space("sparse", t, |fam, a, acc| {
        let (k, o) = (crate::p_sparse::base(4), flip(&crate::p_sparse::base(4), 3));
        let mut l = Live::new();
        let mut say = |l: &mut Live, key: &H, c: &[u8], b: &[u8]| {
            l.apply(&Op::Up(*key, c.to_vec()))?;
            l.check().map_err(|e| format!("after {} and {}: {e}", name(&fam[a]), name(b)))
        };
        for b in fam {
            say(&mut l, &k, &fam[a], b)?;
            say(&mut l, &k, b, b)?;
            say(&mut l, &o, &fam[a], b)?;
            say(&mut l, &o, b, b)?;
            acc.beat();
        }
        Ok(())
    })]
}
pub fn c21_content(t: Tier) -> Vec<Space<'static>> {
    vec![space("in memory", t, |fam, a, acc| {
        let mut bt = binary::in_memory::MerkleTree::new();
        let mut bm = BinModel::new();
        let mut st = sparse::in_memory::MerkleTree::new();
        let mut sm = SMap::new();
        let k = crate::p_sparse::base(4);
        for b in fam {
            for c in [&fam[a], b] {
                bt.push(c);
                bm.push(c);
                if bt.root() != bm.root() {
                    return Err(format!("binary root wrong after {} and {}", name(&fam[a]), name(b)));
                }
                st.update(&k, c);
                match c.is_empty() {
                    true => sm.remove(&k),
                    false => sm.insert(k, value_digest(c)),
                };
                if st.root() != sp_root(&sm) {
                    return Err(format!("sparse root wrong after {} and {}", name(&fam[a]), name(b)));
                }
            }
            acc.beat();
        }
        Ok(())
    })]
}
pub fn c22_content(t: Tier) -> Vec<Space<'static>> {
    let lens = Arc::new(lens(t));
    let mut v = vec![];
    for kind in ["binary", "sum", "sparse"] {
        let (lens, lens2) = (lens.clone(), lens.clone());
        // a content may belong to several families: roots are kept with the content they are of
        let roots: Vec<Mutex<HashMap<H, (bool, H)>>> = (0..64).map(|_| Mutex::default()).collect();
        v.push(Space::new(
            format!("{kind}: the families of contents of {} lengths, alone and after another", lens.len()),
            lens.len() as u64,
            move |i, acc| {
                let len = lens[lens.len() - 1 - i as usize];
                for c in family(len) {
                    for two in [false, true] {
                        let r = match kind {
                            "binary" => {
                                let mut t = binary::in_memory::MerkleTree::new();
                                if two {
                                    t.push(b"first");
                                }
                                t.push(&c);
                                t.root()
                            }
                            "sum" => {
                                let mut t = p_sum::new_tree();
                                if two {
                                    (t.push)(1, b"first").map_err(|e| format!("push failed: {:?}", e))?;
                                }
                                (t.push)(3, &c).map_err(|e| format!("push failed: {:?}", e))?;
                                (t.root)().map_err(|e| format!("root failed: {:?}", e))?.1
                            }
                            _ => {
                                let mut t = sparse::in_memory::MerkleTree::new();
                                if two {
                                    t.update(&[3; 32], b"first");
                                }
                                t.update(&[4; 32], &c);
                                t.root()
                            }
                        };
                        acc.step(1 + two as u64);
                        acc.trace(1);
                        acc.state(&(kind, r));
                        let this = (two, sha(&[&c]));
                        if let Some(other) = roots[(r[0] & 63) as usize].lock().unwrap().insert(r, this) {
                            if other != this {
                                return Err(format!(
                                    "{} {} and {} the content with SHA-256 {} have the same root {}",
                                    if two { "\"first\" followed by" } else { "one entry" },
                                    name(&c),
                                    if other.0 { "\"first\" followed by" } else { "one entry," },
                                    hx(&other.1),
                                    hx(&r)
                                ));
                            }
                        }
                    }
                    acc.beat();
                }
                Ok(())
            },
            move |i| format!("contents of {} bytes and their relatives", lens2[lens2.len() - 1 - i as usize]),
        ));
    }
    v
}
