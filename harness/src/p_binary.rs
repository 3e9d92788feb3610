//! C08-C14: the binary Merkle tree.
use crate::engine::*;
use crate::p_sparse::e2s;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::binary;
use std::collections::BTreeMap;

pub type Store = Mem<BTab>;
pub type Tree = binary::MerkleTree<BTab, Store>;

/// Leaf data as a function of (dataset, index): different lengths, never equal.
pub fn data(set: u64, i: u64) -> Vec<u8> {
    let len = [32usize, 0, 1, 8, 31, 33, 63, 64, 65, 100][(i % 10) as usize];
    let mut v = vec![];
    v.extend_from_slice(&set.to_be_bytes()[7..]);
    v.extend_from_slice(&i.to_be_bytes()[2..]);
    while v.len() < len {
        v.push((v.len() as u8).wrapping_mul(37) ^ i as u8);
    }
    v
}
/// Adversarial leaf contents: empty, prefixes, encodings of nodes and digests of one another.
pub fn adversarial() -> Vec<Vec<u8>> {
    let a = leaf(b"a");
    let e = leaf(b"");
    vec![
        vec![],
        b"a".to_vec(),
        vec![0],
        vec![1],
        [&[1u8][..], &a, &e].concat(),
        [&a[..], &e].concat(),
        [&[0u8][..], b"a"].concat(),
        a.to_vec(),
        empty().to_vec(),
        vec![0; 32],
        vec![0; 64],
        vec![0xff; 65],
        node(&a, &e).to_vec(),
        [&[1u8][..], &a, &a].concat(),
    ]
}
/// Content lengths: all short ones and those around every power of two.
pub fn lengths(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=t.pick(600, 2100)).collect();
    for k in 10..=t.pick(20, 24) {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([1000, 10_000, 100_000, 1_000_000]);
    v.sort();
    v.dedup();
    v
}
pub fn push(t: &mut Tree, d: &[u8]) -> Res {
    t.push(d).map_err(|e| format!("push failed on a working store: {:?}", e))
}
pub fn same_root(t: &Tree, want: &H) -> Res {
    let r = t.root();
    if r != *want {
        return Err(format!("root {} differs from the RFC 6962 root {}", hx(&r), hx(want)));
    }
    Ok(())
}
pub fn pshow(p: &[H]) -> String {
    p.iter().map(|x| hx(x)).collect::<Vec<_>>().join(",")
}
/// The proof of i must be exactly the model's.
pub fn same_proof<T: fuel_merkle::storage::StorageInspect<BTab>>(
    t: &binary::MerkleTree<BTab, T>,
    i: u64,
    n: u64,
    want_root: &H,
    want: &[H],
) -> Res
where
    T::Error: std::fmt::Debug,
{
    let (r, p) = t.prove(i).map_err(|e| format!("prove({i}) of {n} leaves failed: {:?}", e))?;
    if r != *want_root {
        return Err(format!("prove({i}) of {n} leaves gives root {}, expected {}", hx(&r), hx(want_root)));
    }
    if p != want {
        return Err(format!("prove({i}) of {n} leaves gives [{}], expected [{}]", pshow(&p), pshow(want)));
    }
    Ok(())
}
/// Everything observable about a tree of the first n leaves of `m`.
pub fn whole(t: &Tree, m: &BinModel, n: u64, acc: &Acc) -> Res {
    let root = m.root_at(n);
    same_root(t, &root)?;
    for i in 0..n {
        same_proof(t, i, n, &root, &m.proof_at(i, n))?;
    }
    for bad in [n, n + 1, u64::MAX] {
        invalid(t, bad, n)?;
    }
    acc.cmp(n + 4);
    Ok(())
}
pub fn invalid<T: fuel_merkle::storage::StorageInspect<BTab>>(t: &binary::MerkleTree<BTab, T>, i: u64, n: u64) -> Res
where
    T::Error: std::fmt::Debug,
{
    match guard(|| t.prove(i).map_err(e2s)) {
        Err(p) => Err(format!("prove({i}) of {n} leaves panicked: {p}")),
        Ok(Ok(_)) => Err(format!("prove({i}) of {n} leaves returned a proof")),
        Ok(Err(e)) if !e.starts_with("InvalidProofIndex(") => Err(format!("prove({i}) of {n} leaves reported {e}, not an invalid index")),
        Ok(Err(_)) => Ok(()),
    }
}
fn content(st: &Store) -> u64 {
    fp(&st.0.borrow().map)
}

// ------------------------------------------------------------------ C08

pub fn c08(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // one long growth per dataset, root after every push; a second tree is queried all the time
    let max = t.pick(270_000u64, 2_200_000);
    let sets = 8u64;
    v.push(Space::new(
        format!("every size up to {max}, {sets} datasets, with and without queries in between"),
        sets,
        move |s, acc| {
            let (mut quiet, mut asked) = (Tree::new(Store::new()), Tree::new(Store::new()));
            let mut m = BinModel::new();
            same_root(&quiet, &empty())?;
            for n in 1..=max {
                acc.beat();
                let d = data(s, n);
                push(&mut quiet, &d)?;
                push(&mut asked, &d)?;
                m.push(&d);
                let want = m.root();
                same_root(&asked, &want).map_err(|e| format!("{n} leaves: {e}"))?;
                same_root(&asked, &want).map_err(|e| format!("{n} leaves, asked again: {e}"))?;
                let i = (n.wrapping_mul(0x9e3779b97f4a7c15) >> 20) % n;
                let (r, _) = asked.prove(i).map_err(|e| format!("prove({i}) of {n}: {:?}", e))?;
                if r != want {
                    return Err(format!("prove({i}) of {n} leaves gives a different root"));
                }
                // the undisturbed tree is looked at at sparse points only
                if n % 1037 == 0 || n.is_power_of_two() || n < 100 || n == max {
                    same_root(&quiet, &want).map_err(|e| format!("{n} leaves, not queried before: {e}"))?;
                }
                acc.step(2);
                acc.state(&(s, n, want));
            }
            acc.trace(2);
            Ok(())
        },
        |s| format!("dataset {s}: push leaves of cycling lengths 7..100 bytes one by one"),
    ));
    // fresh trees of every size, asked only at the end
    let max2 = t.pick(4200u64, 9000);
    v.push(Space::new(
        format!("fresh trees of every size 0..={max2}, asked once"),
        max2 + 1,
        move |n, acc| {
            let mut t = Tree::new(Store::new());
            let mut m = BinModel::new();
            for i in 0..n {
                let d = data(9, i);
                push(&mut t, &d)?;
                m.push(&d);
            }
            acc.step(n);
            acc.trace(1);
            acc.state(&("fresh", m.root()));
            same_root(&t, &m.root()).map_err(|e| format!("{n} leaves: {e}"))
        },
        |n| format!("{n} pushes then root"),
    ));
    // all lists over an adversarial alphabet
    let al = adversarial();
    let b = al.len() as u64;
    let len = t.pick(5, 6);
    let al2 = al.clone();
    v.push(Space::new(
        format!("all lists of length {len} over {b} adversarial leaf contents"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let mut t = Tree::new(Store::new());
            let mut l = vec![];
            for (p, &x) in d.iter().enumerate() {
                push(&mut t, &al[x])?;
                l.push(leaf(&al[x]));
                if p >= from {
                    same_root(&t, &mth(&l)).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                    acc.step(1);
                    acc.state(&t.root());
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves [{}]", digits(i, b, len).iter().map(|&x| format!("0x{}", hx(&al2[x]))).collect::<Vec<_>>().join(", ")),
    ));
    // all words over two leaves: equal siblings and equal subtrees
    let len = t.pick(19, 22);
    v.push(Space::new(
        format!("all lists of length {len} over two leaf contents"),
        1 << len,
        move |i, acc| {
            let d = digits(i, 2, len);
            let from = first_visit(&d);
            let mut t = Tree::new(Store::new());
            let mut l = vec![];
            for (p, &x) in d.iter().enumerate() {
                push(&mut t, &[x as u8])?;
                l.push(leaf(&[x as u8]));
                if p >= from {
                    same_root(&t, &mth(&l)).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                    acc.step(1);
                    acc.state(&t.root());
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves {:?}", digits(i, 2, len)),
    ));
    // every leaf length
    let lens = lengths(t);
    let l2 = lens.clone();
    v.push(Space::new(
        "leaf lengths x fill bytes",
        lens.len() as u64 * 4,
        move |i, acc| {
            let (n, fill) = (lens[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]);
            let (a, b) = (vec![fill; n], vec![fill; n + 1]);
            let mut t = Tree::new(Store::new());
            let mut l = vec![];
            for d in [&a, &b, &a, &a, &b] {
                push(&mut t, d)?;
                l.push(leaf(d));
                same_root(&t, &mth(&l)).map_err(|e| format!("leaf length {}: {e}", d.len()))?;
                acc.step(1);
                acc.state(&t.root());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves of {} bytes of {:#x}", l2[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]),
    ));
    // every interleaving of push, root and prove
    let len = t.pick(13, 15);
    v.push(Space::new(
        format!("every interleaving of length {len} of push, root and prove"),
        3u64.pow(len as u32),
        move |i, acc| {
            let d = digits(i, 3, len);
            let mut t = Tree::new(Store::new());
            let mut m = BinModel::new();
            for (p, &x) in d.iter().enumerate() {
                match x {
                    0 => {
                        push(&mut t, &data(1, p as u64))?;
                        m.push(&data(1, p as u64));
                    }
                    1 => same_root(&t, &m.root()).map_err(|e| format!("{:?} at {p}: {e}", d))?,
                    _ => {
                        if m.len() > 0 {
                            let i = p as u64 % m.len();
                            same_proof(&t, i, m.len(), &m.root(), &m.proof(i)).map_err(|e| format!("{:?} at {p}: {e}", d))?
                        }
                    }
                }
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&(&d, t.root()));
            same_root(&t, &m.root()).map_err(|e| format!("{:?}: {e}", d))
        },
        move |i| format!("0=push 1=root 2=prove: {:?}", digits(i, 3, len)),
    ));
    v.push(crate::p_special::binary_space(t, |_, tree, m, _| same_root(tree, &m.root())));
    v
}

// ------------------------------------------------------------------ C09

pub fn c09(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(1600u64, 4200);
    v.push(Space::new(
        format!("every index of every size up to {max}"),
        max,
        move |i, acc| {
            // large sizes first spread the work evenly
            let n = max - i;
            let mut t = Tree::new(Store::new());
            let mut m = BinModel::new();
            for i in 0..n {
                let d = data(2, i);
                push(&mut t, &d)?;
                m.push(&d);
            }
            let root = m.root();
            same_root(&t, &root)?;
            for i in 0..n {
                let want = m.proof(i);
                same_proof(&t, i, n, &root, &want)?;
                if !verify_rfc(&root, &want, i, n) {
                    return Err(format!("the RFC 9162 verifier rejects the proof of {i} of {n}"));
                }
                acc.beat();
                acc.state(&(n, i));
            }
            acc.step(n);
            acc.trace(1);
            Ok(())
        },
        move |i| format!("{} leaves, all proofs", max - i),
    ));
    // large trees: structured sizes and indices
    let cap = t.pick(300_000u64, 2_200_000);
    let ns = large_sizes(cap, t.pick(700, 3000));
    let blocks = 24u64;
    let per = (ns.len() as u64 + blocks - 1) / blocks;
    let ns2 = ns.clone();
    v.push(Space::new(
        format!("structured indices of {} structured sizes up to {cap}, in memory and in a store", ns.len()),
        blocks,
        move |blk, acc| {
            let mine: Vec<u64> = ns.iter().skip((blk * per) as usize).take(per as usize).cloned().collect();
            let (mut t, mut im, mut m) = (Tree::new(Store::new()), binary::in_memory::MerkleTree::new(), BinModel::new());
            for n in mine {
                while m.len() < n {
                    let d = data(5, m.len());
                    push(&mut t, &d)?;
                    im.push(&d);
                    m.push(&d);
                    acc.beat();
                }
                let root = m.root();
                same_root(&t, &root).map_err(|e| format!("{n} leaves: {e}"))?;
                for i in structured_indices(n) {
                    let want = m.proof(i);
                    same_proof(&t, i, n, &root, &want)?;
                    match im.prove(i) {
                        Some((r, p)) if r == root && p == want => {}
                        Some((r, p)) => {
                            return Err(format!("in-memory prove({i}) of {n} leaves gives root {} and [{}]", hx(&r), pshow(&p)))
                        }
                        None => return Err(format!("in-memory prove({i}) of {n} leaves gives no proof")),
                    }
                    if !verify_rfc(&root, &want, i, n) {
                        return Err(format!("the RFC 9162 verifier rejects the proof of {i} of {n}"));
                    }
                    acc.step(1);
                    acc.state(&("large", n, i));
                }
                for bad in [n, n + 1, 2 * n, 2 * n - 1, n.next_power_of_two(), u64::MAX] {
                    if bad >= n {
                        invalid(&t, bad, n)?;
                        if guard(|| im.prove(bad)).map_err(|p| format!("in-memory prove({bad}) of {n} leaves panicked: {p}"))?.is_some() {
                            return Err(format!("in-memory prove({bad}) of {n} leaves returned a proof"));
                        }
                    }
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |b| format!("sizes {:?}", ns2.iter().skip((b * per) as usize).take(per as usize).collect::<Vec<_>>()),
    ));
    // live: proofs of every index at every size of one growing tree
    let max = t.pick(600u64, 1200);
    v.push(Space::new(
        format!("all proofs at every step of trees growing to {max} leaves"),
        4,
        move |s, acc| {
            let mut t = Tree::new(Store::new());
            let mut m = BinModel::new();
            for n in 1..=max {
                let d = if s == 3 { vec![7] } else { data(s, n) };
                push(&mut t, &d)?;
                m.push(&d);
                acc.beat();
                whole(&t, &m, n, acc)?;
                acc.step(n);
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {s}, growing, all proofs each time"),
    ));
    // indices not below the leaf count
    let max = t.pick(1100u64, 4200);
    v.push(Space::new(
        format!("invalid indices for every size 0..={max}"),
        max + 1,
        move |n, acc| {
            let mut t = Tree::new(Store::new());
            let mut im = binary::in_memory::MerkleTree::new();
            for i in 0..n {
                push(&mut t, &data(2, i))?;
                im.push(&data(2, i));
            }
            let root = t.root();
            for i in bad_indices(n) {
                acc.beat();
                invalid(&t, i, n)?;
                match guard(|| im.prove(i)) {
                    Err(p) => return Err(format!("in-memory prove({i}) of {n} leaves panicked: {p}")),
                    Ok(Some(_)) => return Err(format!("in-memory prove({i}) of {n} leaves returned a proof")),
                    Ok(None) => {}
                }
                acc.step(2);
                acc.state(&(n, i, "invalid"));
            }
            acc.trace(1);
            same_root(&t, &root)?;
            if n > 0 {
                let (r, p) = im.prove(n - 1).ok_or("no proof of the last leaf after invalid requests")?;
                if r != root || !verify_rfc(&root, &p, n - 1, n) {
                    return Err(format!("in-memory proof of {} of {n} is wrong after invalid requests", n - 1));
                }
            }
            Ok(())
        },
        |n| format!("{n} leaves, indices {n}.., 2^k, 2^64-1 ..."),
    ));
    // loaded trees prove the same
    let max = t.pick(300u64, 700);
    v.push(Space::new(
        format!("all proofs of trees loaded at every size up to {max}"),
        max + 1,
        move |n, acc| {
            let (st, m) = filled(4, max);
            let t = Tree::load(st, n).map_err(|e| format!("load({n}) failed: {:?}", e))?;
            acc.step(n);
            acc.trace(1);
            acc.state(&(n, "loaded"));
            whole(&t, &m, n, acc)
        },
        |n| format!("loaded at {n} leaves, all proofs"),
    ));
    v.push(crate::p_special::binary_space(t, |_, tree, m, acc| whole(tree, m, m.len(), acc)));
    v
}
/// Sizes up to `cap`: around powers of two, sums and differences of two powers, and an even spread.
pub fn large_sizes(cap: u64, spread: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (1..300).collect();
    for a in 0..40u32 {
        let p = 1u64 << a;
        for d in 0..4 {
            v.push(p + d);
            v.push(p.wrapping_sub(d));
        }
        for b in 0..a {
            v.push(p | 1 << b);
            v.push((p | 1 << b) - 1);
            v.push((p | 1 << b) + 1);
            v.push((p - 1) ^ (1 << b));
        }
    }
    v.extend((1..=spread).map(|i| i * cap / spread));
    v.retain(|x| *x >= 1 && *x <= cap);
    v.sort();
    v.dedup();
    v
}
pub fn bad_indices(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (n..n + 5).chain((2 * n).saturating_sub(3).max(n)..2 * n + 4).collect();
    for k in 0..64 {
        let p = 1u64 << k;
        for x in [p - 1, p, p + 1, p + n, p.wrapping_add(n / 2), p.wrapping_sub(n)] {
            if x >= n {
                v.push(x);
            }
        }
    }
    for d in 0..4 {
        v.push(u64::MAX - d);
        v.push(i64::MAX as u64 - d);
    }
    v.retain(|x| *x >= n);
    v.sort();
    v.dedup();
    v
}
pub fn filled(set: u64, n: u64) -> (Store, BinModel) {
    let st = Store::new();
    let mut m = BinModel::new();
    let mut t = Tree::new(st.clone());
    for i in 0..n {
        let d = data(set, i);
        t.push(&d).unwrap();
        m.push(&d);
    }
    (st, m)
}

// ------------------------------------------------------------------ C10

pub fn huge_counts(n: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64u32 {
        let p = 1u64 << k;
        for d in 0..4u64 {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d));
            v.push(p.wrapping_add(n).wrapping_sub(d));
            v.push((!0u64 << k) | (n & (p - 1)));
        }
    }
    for a in 0..64u32 {
        for b in 0..a {
            v.push((1u64 << a) | (1u64 << b));
        }
        v.push(!(1u64 << a));
    }
    for d in 0..70 {
        v.push(u64::MAX - d);
        v.push((1u64 << 63) + d);
        v.push((1u64 << 63) - d);
        v.push((1u64 << 62) + d);
        v.push((1u64 << 62) - d);
    }
    v.retain(|x| *x > n);
    v.sort();
    v.dedup();
    v
}
fn refuses(st: &Store, k: u64, stored: u64) -> Res {
    match guard(|| Tree::load(st.clone(), k).map(|_| ()).map_err(e2s)) {
        Err(p) => Err(format!("load({k}) over a store of {stored} leaves panicked: {p}")),
        Ok(Ok(())) => Err(format!("load({k}) over a store of {stored} leaves succeeded")),
        Ok(Err(e)) if !e.starts_with("LoadError(") => Err(format!("load({k}) over a store of {stored} leaves reported {e}")),
        Ok(Err(_)) => Ok(()),
    }
}

pub fn c10(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // roll back from n to k, push m different leaves; observe everything at each step
    let (nmax, mmax) = t.pick((70u64, 20u64), (140, 40));
    let tri = (nmax + 1) * (nmax + 1);
    v.push(Space::new(
        format!("store of n leaves, load k, push {mmax} other leaves, n <= {nmax}"),
        tri,
        move |i, acc| {
            let (n, k) = (i / (nmax + 1), i % (nmax + 1));
            if k > n {
                return Ok(());
            }
            let (st, mut m) = filled(1, n);
            let mut t = Tree::load(st.clone(), k).map_err(|e| format!("store of {n}, load({k}) failed: {:?}", e))?;
            whole(&t, &m, k, acc).map_err(|e| format!("store of {n}, loaded at {k}: {e}"))?;
            m.truncate(k);
            for j in 0..mmax {
                acc.beat();
                let d = data(2, 100 + j);
                push(&mut t, &d)?;
                m.push(&d);
                whole(&t, &m, m.len(), acc).map_err(|e| format!("store of {n}, loaded at {k}, {} other leaves pushed: {e}", j + 1))?;
                acc.step(1);
                acc.state(&(n, k, j, t.root()));
                // and again from the forked store
                for k2 in [0, k, k + j / 2, m.len() - 1, m.len()] {
                    let t2 = Tree::load(st.clone(), k2)
                        .map_err(|e| format!("store of {n}, loaded at {k}, {} pushed, load({k2}): {:?}", j + 1, e))?;
                    whole(&t2, &m, k2, acc)
                        .map_err(|e| format!("store of {n}, loaded at {k}, {} pushed, loaded again at {k2}: {e}", j + 1))?;
                    acc.step(1);
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("store of {} leaves, load({}), then push different leaves", i / (nmax + 1), i % (nmax + 1)),
    ));
    // all sequences of pushes (two datasets) and loads at any valid earlier size
    let len = t.pick(9, 10);
    let b = 6u64;
    v.push(Space::new(
        format!("every sequence of length {len} of push a, push b, and load at 0, half, size-1, size"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let st = Store::new();
            let mut t = Tree::new(st.clone());
            let mut m = BinModel::new();
            for (p, &x) in d.iter().enumerate() {
                match x {
                    0 | 1 => {
                        let dd = data(x as u64, p as u64 * 7 + 1);
                        push(&mut t, &dd)?;
                        m.push(&dd);
                    }
                    _ => {
                        let n = m.len();
                        let k = [n, n.saturating_sub(1), n / 2, 0][x - 2];
                        t = Tree::load(st.clone(), k).map_err(|e| format!("{:?} at {p}: load({k}) failed: {:?}", d, e))?;
                        m.truncate(k);
                    }
                }
                if p >= from {
                    acc.step(1);
                    acc.state(&(t.root(), content(&st), m.len()));
                    whole(&t, &m, m.len(), acc).map_err(|e| format!("{:?} at {p}: {e}", &d[..=p]))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("0=push a 1=push b 2=load(n) 3=load(n-1) 4=load(n/2) 5=load(0): {:?}", digits(i, b, len)),
    ));
    // large: one store, load at every size
    let max = t.pick(9000u64, 40_000);
    let step = 256u64;
    v.push(Space::new(
        format!("store of {max} leaves loaded at every size, root and 40 proofs, then one more push"),
        max / step + 1,
        move |blk, acc| {
            let (st, m) = filled(3, max);
            for k in blk * step..((blk + 1) * step).min(max + 1) {
                acc.beat();
                let t = Tree::load(st.clone(), k).map_err(|e| format!("load({k}) of {max}: {:?}", e))?;
                let root = m.root_at(k);
                same_root(&t, &root).map_err(|e| format!("loaded at {k} of {max}: {e}"))?;
                for j in 0..k.min(40) {
                    let i = if j < 20 { k - 1 - j } else { (j * 7919 + blk) % k };
                    same_proof(&t, i, k, &root, &m.proof_at(i, k))?;
                }
                let mut over = Tree::load(st.clone(), k).map_err(|e| format!("load({k}) of {max}: {:?}", e))?;
                // pushing what is already there must agree with the next size
                if k < max {
                    over.push(&data(3, k)).map_err(|e| format!("push: {:?}", e))?;
                    if over.root() != m.root_at(k + 1) {
                        return Err(format!("loaded at {k} of {max} and pushed leaf {k}: wrong root"));
                    }
                }
                acc.step(2);
                acc.trace(1);
                acc.state(&("large", k));
            }
            Ok(())
        },
        move |b| format!("load at sizes {}..{}", b * step, ((b + 1) * step).min(max + 1)),
    ));
    // large stores: load at structured sizes, roots, proofs, other leaves, forks
    let cap = t.pick(270_000u64, 1_100_000);
    let ks = large_sizes(cap, t.pick(500, 2000));
    let blocks = 16u64;
    let ks2 = ks.clone();
    let count = ks.len();
    v.push(Space::new(
        format!("store of {cap} leaves loaded at {count} structured sizes, other leaves pushed on, loaded again"),
        blocks,
        move |blk, acc| {
            let (st, mut m) = filled(3, cap);
            // from the largest size down, so that what was overwritten lies above the next size
            for &k in ks.iter().rev().skip(blk as usize).step_by(blocks as usize) {
                acc.beat();
                let mut t = Tree::load(st.clone(), k).map_err(|e| format!("load({k}) of {cap}: {:?}", e))?;
                m.truncate(k);
                let obs = |t: &Tree, m: &BinModel, n: u64| -> Res {
                    let root = m.root_at(n);
                    same_root(t, &root)?;
                    for i in structured_indices(n).into_iter().rev().step_by(5) {
                        same_proof(t, i, n, &root, &m.proof_at(i, n))?;
                    }
                    invalid(t, n, n)
                };
                obs(&t, &m, k).map_err(|e| format!("loaded at {k} of {cap}: {e}"))?;
                for j in 0..3u64 {
                    let d = data(blk, 1000 + j);
                    push(&mut t, &d)?;
                    m.push(&d);
                    obs(&t, &m, k + j + 1).map_err(|e| format!("loaded at {k} of {cap}, {} other leaves pushed: {e}", j + 1))?;
                }
                for k2 in [k, k + 1, k + 3, k / 2] {
                    let t2 = Tree::load(st.clone(), k2).map_err(|e| format!("load({k2}) after rolling back to {k}: {:?}", e))?;
                    obs(&t2, &m, k2).map_err(|e| format!("rolled back to {k} of {cap}, pushed 3, loaded at {k2}: {e}"))?;
                }
                m.truncate(k);
                acc.step(8);
                acc.trace(1);
                acc.state(&("huge", blk, k));
            }
            Ok(())
        },
        move |b| format!("rolled back to {:?}", ks2.iter().rev().skip(b as usize).step_by(blocks as usize).collect::<Vec<_>>()),
    ));
    // the same for stores of any size
    let ns = structured_counts(t);
    let step = t.pick(3, 1);
    let ns: Vec<u64> = ns.into_iter().step_by(step).collect();
    let ns2 = ns.clone();
    v.push(Space::new(
        format!("virtual stores of {} structured leaf counts over 63 bits, loaded with larger counts", ns.len()),
        ns.len() as u64,
        move |i, acc| {
            let n = ns[i as usize];
            let st = Virt::new(n);
            let mut ks = vec![
                n + 1,
                n + 2,
                n + 3,
                2 * n,
                2 * n + 1,
                n.next_power_of_two(),
                (n + 1).next_power_of_two(),
                u64::MAX,
                u64::MAX - 1,
                1 << 63,
                i64::MAX as u64,
            ];
            for b in 0..64u32 {
                ks.extend([n | 1 << b, n.wrapping_add(1 << b), n ^ (1 << b), u64::MAX ^ (1 << b), u64::MAX << b, 1 << b]);
            }
            for k in ks {
                if k <= n {
                    continue;
                }
                match guard(|| binary::MerkleTree::<BTab, Virt>::load(st.clone(), k).map(|_| ()).map_err(e2s)) {
                    Err(p) => return Err(format!("load({k}) over a store of {n} leaves panicked: {p}")),
                    Ok(Ok(())) => return Err(format!("load({k}) over a store of {n} leaves succeeded")),
                    Ok(Err(e)) if !e.starts_with("LoadError(") => return Err(format!("load({k}) over a store of {n} leaves reported {e}")),
                    Ok(Err(_)) => {}
                }
                acc.step(1);
            }
            acc.state(&("virtual", n));
            acc.trace(1);
            Ok(())
        },
        move |i| format!("virtual store of {} leaves", ns2[i as usize]),
    ));
    // counts larger than the leaves ever stored
    let nmax = t.pick(300u64, 1100);
    v.push(Space::new(
        format!("loading with counts above the stored leaves, every store size 0..={nmax}"),
        nmax + 1,
        move |n, acc| {
            let (st, _) = filled(1, n);
            for k in (n + 1..n + 300).chain(huge_counts(n)) {
                refuses(&st, k, n)?;
                acc.beat();
                acc.step(1);
                acc.state(&("above", n, k));
            }
            acc.trace(1);
            Ok(())
        },
        |n| format!("store of {n} leaves, counts {}.., 2^a+2^b, up to 2^64-1", n + 1),
    ));
    v.push(crate::p_special::binary_space(t, |st, _, m, acc| {
        for k in 0..=m.len() {
            let tree = Tree::load(st.clone(), k).map_err(|e| format!("load({k}) failed: {:?}", e))?;
            whole(&tree, m, k, acc).map_err(|e| format!("loaded at {k}: {e}"))?;
        }
        Ok(())
    }));
    v
}
// ------------------------------------------------------------------ C11

fn exact(st: &Store, m: &BinModel, n: u64) -> Res {
    let want: BTreeMap<u64, (u64, H)> = m.stored(n).into_iter().map(|(k, h)| (k, (k, h))).collect();
    let got = &st.0.borrow().map;
    if *got == want {
        return Ok(());
    }
    for (k, v) in got.iter() {
        match want.get(k) {
            None => return Err(format!("{n} leaves: entry {k} is stored but is no perfect subtree")),
            Some(w) if w != v => {
                return Err(format!("{n} leaves: entry {k} holds ({}, {}), expected ({}, {})", v.0, hx(&v.1), w.0, hx(&w.1)))
            }
            _ => {}
        }
    }
    let miss = want.keys().find(|k| !got.contains_key(k)).unwrap();
    Err(format!("{n} leaves: entry {miss} is missing"))
}
pub fn c11(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(2100u64, 5000);
    v.push(Space::new(
        format!("store content after each push up to {max}, 4 datasets, with reloads and queries"),
        8,
        move |s, acc| {
            let st = Store::new();
            let mut t = Tree::new(st.clone());
            let mut m = BinModel::new();
            exact(&st, &m, 0)?;
            for n in 1..=max {
                acc.beat();
                let before = st.snapshot();
                let d = if s % 4 == 3 { vec![1] } else { data(s, n) };
                push(&mut t, &d)?;
                m.push(&d);
                exact(&st, &m, n)?;
                for (k, x) in &before {
                    if st.peek(k) != Some(*x) {
                        return Err(format!("push {n} changed the stored entry {k}"));
                    }
                }
                let snap = st.snapshot();
                st.start_log();
                let _ = t.root();
                for i in (0..n).step_by(1 + n as usize / 12) {
                    t.prove(i).map_err(|e| format!("prove({i}) of {n}: {:?}", e))?;
                }
                let _ = t.prove(n);
                if s >= 4 {
                    t = Tree::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                }
                for (op, k) in st.take_log() {
                    if op == Op::Insert || op == Op::Remove {
                        return Err(format!("{n} leaves: a query made the write {:?}({k})", op));
                    }
                }
                if st.snapshot() != snap {
                    return Err(format!("{n} leaves: a query changed the store"));
                }
                acc.step(2);
                acc.state(&(s, n, content(&st)));
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {}{}", s % 4, if s >= 4 { ", reloading after each push" } else { "" }),
    ));
    // all words over two contents: equal digests at different places
    let len = t.pick(17, 19);
    v.push(Space::new(
        format!("store content for all lists of length {len} over two leaf contents"),
        1 << len,
        move |i, acc| {
            let d = digits(i, 2, len);
            let from = first_visit(&d);
            let st = Store::new();
            let mut t = Tree::new(st.clone());
            let mut m = BinModel::new();
            for (p, &x) in d.iter().enumerate() {
                let dd: &[u8] = if x == 0 { b"" } else { b"x" };
                push(&mut t, dd)?;
                m.push(dd);
                if p >= from {
                    exact(&st, &m, p as u64 + 1).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                    acc.step(1);
                    acc.state(&content(&st));
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves {:?}", digits(i, 2, len)),
    ));
    // one large tree, checked incrementally: each push adds exactly its own nodes
    let max = t.pick(1_100_000u64, 8_500_000);
    v.push(Space::new(
        format!("writes of each push up to {max} leaves"),
        1,
        move |_, acc| {
            let st = Store::new();
            let mut t = Tree::new(st.clone());
            let mut m = BinModel::new();
            for n in 1..=max {
                acc.beat();
                st.start_log();
                let d = data(0, n);
                push(&mut t, &d)?;
                m.push(&d);
                let mut want = vec![];
                let mut size = 1u64;
                while n % size == 0 {
                    want.push((2 * (n - size) + size - 1, m.perfect(n - size, size)));
                    size *= 2;
                }
                let mut wrote: Vec<u64> = vec![];
                for (op, k) in st.take_log() {
                    match op {
                        Op::Insert => wrote.push(k),
                        Op::Remove => return Err(format!("push {n} removed the entry {k}")),
                        _ => {}
                    }
                }
                for k in wrote {
                    // in-order index -> perfect subtree of the first n leaves
                    let size = 1u64 << (!k).trailing_zeros();
                    let a = (k + 1 - size) / 2;
                    if a + size > n || st.peek(&k) != Some((k, m.perfect(a, size))) {
                        return Err(format!("push {n} wrote the entry {k}, which is no perfect subtree or has the wrong content"));
                    }
                }
                for (k, h) in want {
                    if st.peek(&k) != Some((k, h)) {
                        return Err(format!("push {n} stored the wrong content under {k}"));
                    }
                }
                acc.step(1);
                acc.state(&("large", n));
            }
            acc.trace(1);
            Ok(())
        },
        |_| "one growing tree".into(),
    ));
    v.push(crate::p_special::binary_space(t, |st, _, m, _| exact(st, m, m.len())));
    v
}

// ------------------------------------------------------------------ C12

pub fn c12(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let mut sizes: Vec<u64> = (0..=t.pick(260u64, 530)).collect();
    sizes.extend([127, 128, 255, 256, 511, 1023]);
    sizes.sort();
    sizes.dedup();
    let sizes2 = sizes.clone();
    let ns = sizes.len() as u64;
    let two = t.thorough();
    v.push(Space::new(
        format!("every failing call of a push onto {ns} sizes up to 1023, live or loaded"),
        ns * 2,
        move |i, acc| {
            // large sizes first
            let (n, loaded) = (sizes[(ns - 1 - i / 2) as usize], i % 2 == 1);
            let whole = |t: &Tree, m: &BinModel, n: u64, acc: &Acc| -> Res {
                if n < 100 {
                    return whole(t, m, n, acc);
                }
                let root = m.root_at(n);
                same_root(t, &root)?;
                for i in structured_indices(n).into_iter().rev().step_by(3) {
                    same_proof(t, i, n, &root, &m.proof_at(i, n))?;
                }
                invalid(t, n, n)
            };
            let make = || -> Result<(Store, Tree, BinModel), String> {
                let st = Store::new();
                let mut t = Tree::new(st.clone());
                let mut m = BinModel::new();
                for i in 0..n {
                    push(&mut t, &data(1, i))?;
                    m.push(&data(1, i));
                }
                if loaded {
                    t = Tree::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                }
                Ok((st, t, m))
            };
            let dry = {
                let (st, mut t, _) = make()?;
                st.reset_calls();
                push(&mut t, &data(5, n))?;
                st.calls()
            };
            for c in 1..=dry {
                for mode in [Mode::Before, Mode::After, Mode::Down] {
                    let ctx = |e: String| {
                        format!(
                            "{n} leaves{}, storage call {c} of {dry} of a push failing ({mode:?}): {e}",
                            if loaded { " (loaded)" } else { "" }
                        )
                    };
                    let fail = |st: &Store, t: &mut Tree, d: &[u8], c: u64, mode: Mode| -> Result<bool, String> {
                        st.arm(c, mode);
                        let r = guard(|| t.push(d).map_err(e2s)).map_err(|p| format!("panicked: {p}"))?;
                        let hit = st.disarm();
                        match r {
                            Ok(()) if hit => Err("reported success".into()),
                            Ok(()) => Ok(false),
                            Err(e) if !carries(&e, c) => Err(format!("reported {e}, which does not carry the failure")),
                            Err(_) => Ok(true),
                        }
                    };
                    // follow-ups: 0 retry, 1 a different push, 2 drop and load
                    for follow in 0..3u64 {
                        acc.beat();
                        acc.eval(1);
                        acc.state(&(n, loaded, c, mode as u8, follow));
                        let (st, mut t, mut m) = make()?;
                        if !fail(&st, &mut t, &data(5, n), c, mode).map_err(ctx)? {
                            continue;
                        }
                        guard(|| whole(&t, &m, n, acc))
                            .unwrap_or_else(|p| Err(format!("panic: {p}")))
                            .map_err(|e| ctx(format!("afterwards {e}")))?;
                        let pre = m.clone();
                        for k in 0..=n {
                            let t2 = Tree::load(st.clone(), k).map_err(|e| ctx(format!("then load({k}): {:?}", e)))?;
                            same_root(&t2, &pre.root_at(k)).map_err(|e| ctx(format!("then loaded at {k}: {e}")))?;
                        }
                        if follow == 2 {
                            drop(t);
                            t = Tree::load(st.clone(), n).map_err(|e| ctx(format!("then load({n}): {:?}", e)))?;
                        }
                        for j in 0..3u64 {
                            let d = if follow == 1 { data(6, n + j) } else { data(5, n + j) };
                            push(&mut t, &d).map_err(ctx)?;
                            m.push(&d);
                            guard(|| whole(&t, &m, m.len(), acc))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")))
                                .map_err(|e| ctx(format!("then {} more pushes: {e}", j + 1)))?;
                            let t2 = Tree::load(st.clone(), m.len())
                                .map_err(|e| ctx(format!("then {} more pushes and load: {:?}", j + 1, e)))?;
                            whole(&t2, &m, m.len(), acc).map_err(|e| ctx(format!("then {} more pushes and load: {e}", j + 1)))?;
                        }
                        acc.step(4);
                    }
                    if two || n < 20 {
                        // a second failure in the retry, and a third push
                        for c2 in 1..=dry {
                            acc.eval(1);
                            acc.state(&(n, loaded, c, mode as u8, "second", c2));
                            let (st, mut t, mut m) = make()?;
                            if !fail(&st, &mut t, &data(5, n), c, mode).map_err(ctx)? {
                                continue;
                            }
                            fail(&st, &mut t, &data(7, n), c2, Mode::Before)
                                .map_err(|e| ctx(format!("then a push failing at call {c2}: {e}")))?;
                            same_root(&t, &m.root()).map_err(|e| ctx(format!("then a push failing at call {c2}: {e}")))?;
                            for j in 0..2 {
                                push(&mut t, &data(8, n + j)).map_err(ctx)?;
                                m.push(&data(8, n + j));
                            }
                            whole(&t, &m, m.len(), acc)
                                .map_err(|e| ctx(format!("then a push failing at call {c2}, then two pushes: {e}")))?;
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| {
            format!(
                "{} leaves{}, push with each storage call failing",
                sizes2[(ns - 1 - i / 2) as usize],
                if i % 2 == 1 { " (loaded)" } else { "" }
            )
        },
    ));
    // prove and load
    let nmax = t.pick(140u64, 300);
    v.push(Space::new(
        format!("every failing call of prove and load, up to {nmax} leaves"),
        nmax + 1,
        move |n, acc| {
            let n = nmax - n;
            let (st, m) = filled(1, n);
            let t = Tree::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
            let snap = st.snapshot();
            for i in 0..n {
                st.reset_calls();
                let _ = t.prove(i).map_err(|e| format!("prove({i}) of {n}: {:?}", e))?;
                for c in 1..=st.calls() {
                    for mode in [Mode::Before, Mode::Down] {
                        acc.beat();
                        acc.eval(1);
                        acc.state(&("prove", n, i, c, mode as u8));
                        st.arm(c, mode);
                        let r = guard(|| t.prove(i).map_err(e2s))
                            .map_err(|p| format!("prove({i}) of {n} with call {c} failing panicked: {p}"))?;
                        let hit = st.disarm();
                        match r {
                            Ok(_) if hit => return Err(format!("prove({i}) of {n} with call {c} failing reported success")),
                            Err(e) if !carries(&e, c) => return Err(format!("prove({i}) of {n} with call {c} failing reported {e}")),
                            _ => {}
                        }
                        same_proof(&t, i, n, &m.root(), &m.proof(i)).map_err(|e| format!("after a failed prove({i}): {e}"))?;
                    }
                }
                st.reset_calls();
            }
            for k in 0..=n {
                st.reset_calls();
                let _ = Tree::load(st.clone(), k);
                for c in 1..=st.calls() {
                    for mode in [Mode::Before, Mode::Down] {
                        acc.eval(1);
                        acc.state(&("load", n, k, c, mode as u8));
                        st.arm(c, mode);
                        let r = guard(|| Tree::load(st.clone(), k).map(|_| ()).map_err(e2s))
                            .map_err(|p| format!("load({k}) of {n} with call {c} failing panicked: {p}"))?;
                        let hit = st.disarm();
                        match r {
                            Ok(_) if hit => return Err(format!("load({k}) of {n} with call {c} failing reported success")),
                            Err(e) if !carries(&e, c) => return Err(format!("load({k}) of {n} with call {c} failing reported {e}")),
                            _ => {}
                        }
                        let t2 = Tree::load(st.clone(), k).map_err(|e| format!("load({k}) after a failed one: {:?}", e))?;
                        same_root(&t2, &m.root_at(k))?;
                    }
                }
            }
            if st.snapshot() != snap {
                return Err(format!("{n} leaves: failing queries changed the store"));
            }
            Ok(())
        },
        move |n| format!("{} leaves, every prove(i) and load(k) with each storage call failing", nmax - n),
    ));
    // histories of working and failing operations
    let len = t.pick(6, 7);
    let b = 11u64;
    let starts = [0u64, 1, 3, 7, 21];
    v.push(Space::new(
        format!("every history of length {len} of push, prove, load and rollback, working or failing, from 0, 1, 3, 7 and 21 leaves"),
        5 * b.pow(len as u32),
        move |i, acc| {
            let n0 = starts[(i / b.pow(len as u32)) as usize];
            let d = digits(i % b.pow(len as u32), b, len);
            let (st, mut m) = filled(1, n0);
            let mut t = Tree::load(st.clone(), n0).map_err(|e| format!("load({n0}): {:?}", e))?;
            for (p, &x) in d.iter().enumerate() {
                let ctx = |e: String| format!("{n0} leaves, {:?} at step {p}: {e}", d);
                let mode = [Mode::Before, Mode::After, Mode::Down][p % 3];
                let n = m.len();
                let at = match x {
                    1..=4 => x as u64,
                    6 | 8 => 1,
                    7 | 9 => 2,
                    _ => 0,
                };
                if at > 0 {
                    st.arm(at, mode);
                }
                let bytes = [x as u8, p as u8];
                // 0-4 push, 5 proofs, 6-7 failing proofs, 8-9 failing loads, 10 load half way back
                let r = guard(|| match x {
                    0..=4 => t.push(&bytes).map(|_| None).map_err(e2s),
                    5 => Ok(None),
                    6 | 7 => t.prove(n / 2).map(|_| None).map_err(e2s),
                    _ => Tree::load(st.clone(), if x == 10 { n - n / 2 } else { n }).map(Some).map_err(e2s),
                });
                let hit = st.disarm();
                match r {
                    Err(e) => return Err(ctx(format!("panic: {e}"))),
                    Ok(Err(e)) if hit && carries(&e, at) => acc.eval(1),
                    Ok(Err(_)) if n == 0 && (x == 6 || x == 7) => {}
                    Ok(Err(e)) => return Err(ctx(format!("reported {e}"))),
                    Ok(Ok(_)) if hit => return Err(ctx("reported success".into())),
                    Ok(Ok(new)) => {
                        if x <= 4 {
                            m.push(&bytes);
                        }
                        if x == 10 {
                            m.truncate(n - n / 2);
                        }
                        if let Some(new) = new {
                            t = new;
                        }
                    }
                }
                if x == 5 {
                    whole(&t, &m, m.len(), acc).map_err(ctx)?;
                } else {
                    same_root(&t, &m.root()).map_err(ctx)?;
                }
                acc.step(1);
            }
            let n = m.len();
            whole(&t, &m, n, acc).map_err(|e| format!("{n0} leaves, {:?}: {e}", d))?;
            let t2 = Tree::load(st.clone(), n).map_err(|e| format!("{n0} leaves, {:?}, then load({n}): {:?}", d, e))?;
            whole(&t2, &m, n, acc).map_err(|e| format!("{n0} leaves, {:?}, then load({n}): {e}", d))?;
            acc.state(&(n0, &d));
            Ok(())
        },
        move |i| {
            format!(
                "start {}: {:?} (0 push, 1-4 push failing at that call, 5 all proofs, 6-7 prove failing, 8-9 load failing, 10 load half way back)",
                starts[(i / b.pow(len as u32)) as usize],
                digits(i % b.pow(len as u32), b, len)
            )
        },
    ));
    // counts that can only be loaded: the store answers for their perfect subtrees
    let counts: Vec<u64> = structured_counts(t)
        .into_iter()
        .enumerate()
        .filter(|(j, n)| *n < MAXC && (n.trailing_ones() > 5 || j % 12 == 0 || t.thorough()))
        .map(|x| x.1)
        .collect();
    let counts2 = counts.clone();
    v.push(Space::new(
        format!("{} structured leaf counts over 63 bits: every failing call of load, prove and push", counts.len()),
        counts.len() as u64,
        move |ci, acc| {
            type T = binary::MerkleTree<BTab, Virt>;
            let n = counts[ci as usize];
            let pick = |n: u64, k: usize| -> Vec<u64> {
                let ix = structured_indices(n);
                ix.iter().step_by(1 + ix.len() / k).chain(ix.last()).cloned().collect()
            };
            let observe = |t: &T, m: &VModel, n: u64, k: usize| -> Res {
                let root = root_of(m, n);
                if t.root() != root {
                    return Err(format!("{n} leaves: root {} differs from {}", hx(&t.root()), hx(&root)));
                }
                for i in pick(n, k) {
                    same_proof(t, i, n, &root, &audit(m, i, n))?;
                }
                invalid(t, n, n)
            };
            let judge = |r: Result<Result<(), String>, String>, hit: bool, c: u64| -> Result<bool, String> {
                match r {
                    Err(p) => Err(format!("panicked: {p}")),
                    Ok(Ok(())) if hit => Err("reported success".into()),
                    Ok(Ok(())) => Ok(false),
                    Ok(Err(e)) if hit && carries(&e, c) => Ok(true),
                    Ok(Err(e)) => Err(format!("reported {e}, which does not carry the failure")),
                }
            };
            // load
            for mode in [Mode::Before, Mode::Down] {
                for c in 1.. {
                    let st = Virt::new(n);
                    st.arm(c, mode);
                    let r = guard(|| T::load(st.clone(), n).map(|_| ()).map_err(e2s));
                    let hit = st.disarm();
                    if !judge(r, hit, c).map_err(|e| format!("load({n}) with storage call {c} failing ({mode:?}) {e}"))? {
                        break;
                    }
                    acc.eval(1);
                    acc.state(&("load", n, c, mode as u8));
                }
            }
            // prove
            {
                let st = Virt::new(n);
                let t = T::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                let m = VModel { base: n, extra: vec![] };
                for i in pick(n, 2) {
                    for c in 1.. {
                        acc.beat();
                        st.arm(c, [Mode::Before, Mode::Down][c as usize % 2]);
                        let r = guard(|| t.prove(i).map(|_| ()).map_err(e2s));
                        let hit = st.disarm();
                        if !judge(r, hit, c).map_err(|e| format!("{n} leaves, prove({i}) with storage call {c} failing {e}"))? {
                            break;
                        }
                        acc.eval(1);
                        acc.state(&("prove", n, i, c));
                    }
                }
                observe(&t, &m, n, 3).map_err(|e| format!("after failing proofs: {e}"))?;
            }
            // push
            for mode in [Mode::Before, Mode::After, Mode::Down] {
                for c in 1.. {
                    acc.beat();
                    let ctx = |e: String| format!("{n} leaves, storage call {c} of a push failing ({mode:?}): {e}");
                    let st = Virt::new(n);
                    let mut t = T::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                    let mut m = VModel { base: n, extra: vec![] };
                    st.arm(c, mode);
                    let r = guard(|| t.push(&data(5, 0)).map_err(e2s));
                    let hit = st.disarm();
                    if !judge(r, hit, c).map_err(ctx)? {
                        break;
                    }
                    acc.eval(1);
                    acc.state(&("push", n, c, mode as u8));
                    let all = |t: &T, m: &VModel, what: &str| -> Res {
                        guard(|| observe(t, m, n + m.extra.len() as u64, 3))
                            .unwrap_or_else(|p| Err(format!("panic: {p}")))
                            .map_err(|e| ctx(format!("{what}: {e}")))
                    };
                    all(&t, &m, "afterwards")?;
                    let t2 = T::load(st.clone(), n).map_err(|e| ctx(format!("then load({n}): {:?}", e)))?;
                    all(&t2, &m, "loaded afterwards")?;
                    for j in 0..2u64 {
                        if n + j >= MAXC {
                            break;
                        }
                        let d = data(5 + c % 2, j);
                        t.push(&d).map_err(|e| ctx(format!("then a push: {:?}", e)))?;
                        m.extra.push(leaf(&d));
                        all(&t, &m, "after the next push")?;
                    }
                    acc.step(4);
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("virtual tree of {} leaves, load, proofs and a push with each storage call failing", counts2[i as usize]),
    ));
    v
}

// ------------------------------------------------------------------ C13

fn missing(st: &Store, e: &str) -> bool {
    e.strip_prefix("LoadError(").and_then(|s| s.strip_suffix(')')).and_then(|s| s.parse::<u64>().ok()).is_some_and(|k| !st.has(&k))
}
fn lost_outcomes(st: &Store, live: &Tree, m: &BinModel, n: u64, what: &str, acc: &Acc, ks: &[u64]) -> Res {
    let named_missing = |e: &str| missing(st, e);
    for i in 0..n {
        match guard(|| live.prove(i).map_err(e2s)) {
            Err(p) => return Err(format!("{n} leaves, lost {what}: prove({i}) panicked: {p}")),
            Ok(Ok((r, p))) => {
                if r != m.root_at(n) || p != m.proof_at(i, n) {
                    return Err(format!("{n} leaves, lost {what}: prove({i}) gives a different root or proof"));
                }
            }
            Ok(Err(e)) if named_missing(&e) => {}
            Ok(Err(e)) => return Err(format!("{n} leaves, lost {what}: prove({i}) reported {e}, which names no missing entry")),
        }
    }
    for &k in ks {
        match guard(|| Tree::load(st.clone(), k).map_err(e2s)) {
            Err(p) => return Err(format!("{n} leaves, lost {what}: load({k}) panicked: {p}")),
            Ok(Ok(t)) => {
                same_root(&t, &m.root_at(k)).map_err(|e| format!("{n} leaves, lost {what}, loaded at {k}: {e}"))?;
                for i in 0..k {
                    match guard(|| t.prove(i).map_err(e2s)) {
                        Err(p) => return Err(format!("{n} leaves, lost {what}, loaded at {k}: prove({i}) panicked: {p}")),
                        Ok(Ok((r, p))) => {
                            if r != m.root_at(k) || p != m.proof_at(i, k) {
                                return Err(format!("{n} leaves, lost {what}, loaded at {k}: prove({i}) gives a different root or proof"));
                            }
                        }
                        Ok(Err(e)) if named_missing(&e) => {}
                        Ok(Err(e)) => {
                            return Err(format!(
                                "{n} leaves, lost {what}, loaded at {k}: prove({i}) reported {e}, which names no missing entry"
                            ))
                        }
                    }
                }
            }
            Ok(Err(e)) if named_missing(&e) => {}
            Ok(Err(e)) => return Err(format!("{n} leaves, lost {what}: load({k}) reported {e}, which names no missing entry")),
        }
    }
    acc.eval(1);
    Ok(())
}
pub fn c13(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // all subsets of entries for small trees
    let small = t.pick(11u64, 13);
    let mut cases = vec![];
    for n in 1..=small {
        let (st, _) = filled(1, n);
        cases.push((n, st.len() as u32));
    }
    let total: u64 = cases.iter().map(|c| 1u64 << c.1).sum();
    let c2 = cases.clone();
    let pick = move |cases: &[(u64, u32)], mut i: u64| {
        for &(n, e) in cases {
            if i < 1 << e {
                return (n, i);
            }
            i -= 1 << e;
        }
        unreachable!()
    };
    v.push(Space::new(
        format!("all subsets of lost entries of trees up to {small} leaves"),
        total,
        move |i, acc| {
            let (n, mask) = pick(&cases, i);
            let (st, m) = filled(1, n);
            let live = Tree::load(st.clone(), n).map_err(|e| format!("{:?}", e))?;
            let keys: Vec<u64> = st.snapshot().keys().cloned().collect();
            let gone: Vec<u64> = keys.iter().enumerate().filter(|(j, _)| mask >> j & 1 == 1).map(|x| *x.1).collect();
            for g in &gone {
                st.lose(g);
            }
            acc.state(&(n, mask));
            lost_outcomes(&st, &live, &m, n, &format!("{:?}", gone), acc, &(0..=n).collect::<Vec<_>>())
        },
        move |i| {
            let (n, mask) = pick(&c2, i);
            format!("{n} leaves, lost entries mask {mask:#b}")
        },
    ));
    // singles and pairs for larger trees
    let max = t.pick(70u64, 140);
    v.push(Space::new(
        format!("every single lost entry and every pair, trees up to {max} leaves"),
        max,
        move |i, acc| {
            let n = max - i;
            let (st, m) = filled(2, n);
            let live = Tree::load(st.clone(), n).map_err(|e| format!("{:?}", e))?;
            let keys: Vec<u64> = st.snapshot().keys().cloned().collect();
            let ks = [n, n - 1, n / 2];
            for (x, a) in keys.iter().enumerate() {
                let va = st.lose(a).unwrap();
                acc.state(&(n, a));
                lost_outcomes(&st, &live, &m, n, &format!("[{a}]"), acc, &(0..=n).collect::<Vec<_>>())?;
                if n <= max / 2 || t.thorough() {
                    for b in &keys[x + 1..] {
                        acc.beat();
                        let vb = st.lose(b).unwrap();
                        acc.state(&(n, a, b));
                        lost_outcomes(&st, &live, &m, n, &format!("[{a}, {b}]"), acc, &ks)?;
                        st.put(b, vb);
                    }
                }
                st.put(a, va);
            }
            // everything from some key on, and everything below some key
            for cut in &keys {
                for above in [true, false] {
                    let s2 = st.fork();
                    let live = Tree::load(s2.clone(), n).map_err(|e| format!("{:?}", e))?;
                    for k in &keys {
                        if (k >= cut) == above {
                            s2.lose(k);
                        }
                    }
                    acc.state(&(n, cut, above));
                    lost_outcomes(&s2, &live, &m, n, &format!("all {} {cut}", if above { "from" } else { "below" }), acc, &ks)?;
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves, singles, pairs and prefixes/suffixes of lost entries", max - i),
    ));
    // pushing after a loss: the peaks are in memory
    let max = t.pick(33u64, 70);
    v.push(Space::new(
        format!("every single lost entry and every pair, then five pushes, trees up to {max} leaves"),
        max,
        move |i, acc| {
            let n = max - i;
            let (st, _) = filled(2, n);
            let keys: Vec<u64> = st.snapshot().keys().cloned().collect();
            for a in 0..keys.len() {
                for b in a..keys.len() {
                    let (s2, mut m) = (st.fork(), filled(2, n).1);
                    let mut live = Tree::load(s2.clone(), n).map_err(|e| format!("{:?}", e))?;
                    s2.lose(&keys[a]);
                    s2.lose(&keys[b]);
                    let what = format!("[{}, {}] and pushed", keys[a], keys[b]);
                    acc.state(&(n, a, b, "push"));
                    for j in 0..5 {
                        acc.beat();
                        match guard(|| live.push(&data(7, n + j)).map_err(e2s)) {
                            Err(p) => return Err(format!("{n} leaves, lost {what}: push {j} panicked: {p}")),
                            Ok(Ok(())) => m.push(&data(7, n + j)),
                            Ok(Err(e)) if missing(&s2, &e) => break,
                            Ok(Err(e)) => {
                                return Err(format!("{n} leaves, lost {what}: push {j} reported {e}, which names no missing entry"))
                            }
                        }
                        same_root(&live, &m.root()).map_err(|e| format!("{n} leaves, lost {what}: {e}"))?;
                        if j % 2 == 0 {
                            let k = m.len();
                            lost_outcomes(&s2, &live, &m, k, &what, acc, &[k])?;
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves, singles and pairs of lost entries, then pushes", max - i),
    ));
    // larger trees, one entry lost
    let max = t.pick(300u64, 700);
    v.push(Space::new(
        format!("every single lost entry of trees of up to {max} leaves"),
        max,
        move |i, acc| {
            let n = max - i;
            let (st, m) = filled(3, n);
            let live = Tree::load(st.clone(), n).map_err(|e| format!("{:?}", e))?;
            let keys: Vec<u64> = st.snapshot().keys().cloned().collect();
            let root = m.root_at(n);
            for a in &keys {
                acc.beat();
                let va = st.lose(a).unwrap();
                acc.state(&(n, a, "one"));
                // the proofs of the leaves below the entry's parent, and a spread of others
                let h = (!a).trailing_zeros();
                let first = (a + 1 - (1 << h)) / 2;
                let near = first.saturating_sub(1 << h)..(first + (2 << h)).min(n);
                let mut ix: Vec<u64> = if h < 4 { near.collect() } else { near.step_by(1 << (h - 3)).collect() };
                ix.extend([0, n / 2, n - 1]);
                for i in ix {
                    match guard(|| live.prove(i).map_err(e2s)) {
                        Err(p) => return Err(format!("{n} leaves, lost {a}: prove({i}) panicked: {p}")),
                        Ok(Ok((r, p))) if r == root && p == m.proof_at(i, n) => {}
                        Ok(Ok(_)) => return Err(format!("{n} leaves, lost {a}: prove({i}) gives a different root or proof")),
                        Ok(Err(e)) if missing(&st, &e) => {}
                        Ok(Err(e)) => return Err(format!("{n} leaves, lost {a}: prove({i}) reported {e}, which names no missing entry")),
                    }
                }
                match guard(|| Tree::load(st.clone(), n).map_err(e2s)) {
                    Err(p) => return Err(format!("{n} leaves, lost {a}: load panicked: {p}")),
                    Ok(Ok(t)) => same_root(&t, &root).map_err(|e| format!("{n} leaves, lost {a}, loaded: {e}"))?,
                    Ok(Err(e)) if missing(&st, &e) => {}
                    Ok(Err(e)) => return Err(format!("{n} leaves, lost {a}: load reported {e}, which names no missing entry")),
                }
                acc.eval(1);
                st.put(a, va);
            }
            Ok(())
        },
        move |i| format!("{} leaves, each entry lost", max - i),
    ));
    let counts: Vec<u64> = structured_counts(t).into_iter().enumerate().filter(|(j, _)| j % 4 == 0 || t.thorough()).map(|x| x.1).collect();
    let counts2 = counts.clone();
    v.push(Space::new(
        format!("{} structured leaf counts over 63 bits: each entry that load and proofs ask for lost", counts.len()),
        counts.len() as u64,
        move |ci, acc| {
            type T = binary::MerkleTree<BTab, Virt>;
            let n = counts[ci as usize];
            if n == 0 {
                return Ok(());
            }
            let st = Virt::new(n);
            let m = VModel { base: n, extra: vec![] };
            let live = T::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
            let root = root_of(&m, n);
            let ix = structured_indices(n);
            let ix: Vec<u64> = ix.iter().step_by(1 + ix.len() / 3).chain(ix.last()).cloned().collect();
            let named = |e: &str, k: u64| e == format!("LoadError({k})");
            for &i in &ix {
                st.asked.borrow_mut().clear();
                T::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                live.prove(i).map_err(|e| format!("{n} leaves: prove({i}): {:?}", e))?;
                let keys: Vec<u64> = st.asked.borrow().iter().cloned().collect();
                for k in keys {
                    acc.beat();
                    *st.lost.borrow_mut() = [k].into();
                    if !st.holds(k) {
                        continue;
                    }
                    acc.state(&("virtual", n, i, k));
                    acc.eval(1);
                    match guard(|| live.prove(i).map_err(e2s)) {
                        Err(p) => return Err(format!("{n} leaves, lost {k}: prove({i}) panicked: {p}")),
                        Ok(Ok((r, p))) if r == root && p == audit(&m, i, n) => {}
                        Ok(Ok(_)) => return Err(format!("{n} leaves, lost {k}: prove({i}) gives a different root or proof")),
                        Ok(Err(e)) if named(&e, k) => {}
                        Ok(Err(e)) => return Err(format!("{n} leaves, lost {k}: prove({i}) reported {e}, which names no missing entry")),
                    }
                    match guard(|| T::load(st.clone(), n).map_err(e2s)) {
                        Err(p) => return Err(format!("{n} leaves, lost {k}: load panicked: {p}")),
                        Ok(Ok(t)) if t.root() == root => {}
                        Ok(Ok(t)) => {
                            return Err(format!("{n} leaves, lost {k}: loaded with root {} instead of {}", hx(&t.root()), hx(&root)))
                        }
                        Ok(Err(e)) if named(&e, k) => {}
                        Ok(Err(e)) => return Err(format!("{n} leaves, lost {k}: load reported {e}, which names no missing entry")),
                    }
                    acc.step(2);
                }
                st.lost.borrow_mut().clear();
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("virtual tree of {} leaves, each entry asked for lost", counts2[i as usize]),
    ));
    v
}

// ------------------------------------------------------------------ C14

impl Perfect for Virt {
    fn perfect(&self, a: u64, size: u64) -> H {
        let key = (2u128 * a as u128 + size as u128 - 1) as u64;
        if a as u128 + size as u128 <= self.count as u128 {
            virt_digest(key)
        } else {
            panic!("model: not a stored subtree")
        }
    }
}
/// Model: `base` virtual leaves followed by real ones.
pub struct VModel {
    pub base: u64,
    pub extra: Vec<H>,
}
impl Perfect for VModel {
    fn perfect(&self, a: u64, size: u64) -> H {
        if a + size <= self.base {
            return virt_digest(in_order(a, a + size));
        }
        if size == 1 {
            return self.extra[(a - self.base) as usize];
        }
        node(&self.perfect(a, size / 2), &self.perfect(a + size / 2, size / 2))
    }
}
const MAXC: u64 = (1 << 63) - 1;
pub fn structured_counts(t: Tier) -> Vec<u64> {
    let mut v: Vec<u64> = (0..t.pick(200, 3000)).collect();
    for a in 0..64u32 {
        let p = 1u64 << a;
        for d in 0..t.pick(6u64, 20) {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d + 1));
        }
        for b in 0..a {
            let q = p | 1u64 << b;
            v.push(q);
            v.push(q - 1);
            v.push(q + 1);
            v.push(p.wrapping_sub(1u64 << b));
            // runs of ones
            v.push((p - 1) & !((1u64 << b) - 1));
            if t.thorough() {
                for c in 0..b {
                    v.push(q | 1 << c);
                    v.push(MAXC ^ q ^ (1 << c));
                }
            }
            v.push(MAXC ^ (q & MAXC));
        }
        v.push(0xaaaa_aaaa_aaaa_aaaa & (p - 1));
        v.push(0x5555_5555_5555_5555 & (p - 1));
        v.push(0xaaaa_aaaa_aaaa_aaaa >> a);
        v.push(0x9e37_79b9_7f4a_7c15 >> a);
    }
    for d in 0..40 {
        v.push(MAXC - d);
        v.push((1 << 62) - 1 - d);
        v.push((1 << 62) + d);
        v.push((1 << 32) - 20 + d);
        v.push((1 << 31) - 20 + d);
    }
    v.retain(|x| *x <= MAXC);
    v.sort();
    v.dedup();
    v
}
pub fn structured_indices(n: u64) -> Vec<u64> {
    let mut v = vec![];
    if n == 0 {
        return v;
    }
    for (a, s) in peaks(n) {
        for x in [a, a + 1, a + s / 2, (a + s / 2).wrapping_sub(1), a + s - 1, a.wrapping_sub(1)] {
            v.push(x);
        }
    }
    for k in 0..63 {
        v.push((1u64 << k) - 1);
        v.push(1u64 << k);
        v.push(n.wrapping_sub(1u64 << k));
    }
    v.push(0x5555_5555_5555_5555 % n);
    v.push(0x9e37_79b9_7f4a_7c15 % n);
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}
pub fn c14(t: Tier) -> Vec<Space<'static>> {
    let counts = structured_counts(t);
    let (c2, c3, counts2) = (counts.clone(), counts.clone(), counts.clone());
    let pushes = t.pick(5u64, 12);
    vec![
        Space::new(
            format!("{} structured leaf counts over 63 bits: load, root, proofs, {pushes} pushes", counts.len()),
            counts.len() as u64,
            move |ci, acc| {
                let n = counts[ci as usize];
                let st = Virt::new(n);
                let mut tree = binary::MerkleTree::<BTab, Virt>::load(st.clone(), n).map_err(|e| format!("load({n}) failed: {:?}", e))?;
                let mut m = VModel { base: n, extra: vec![] };
                let observe = |tree: &binary::MerkleTree<BTab, Virt>, m: &VModel, n: u64, full: bool| -> Res {
                    let root = root_of(m, n);
                    if tree.root() != root {
                        return Err(format!("{n} leaves: root {} differs from {}", hx(&tree.root()), hx(&root)));
                    }
                    let ix = structured_indices(n);
                    let stride = if full { 1 } else { 1 + ix.len() / 24 };
                    for (j, &i) in ix.iter().enumerate() {
                        if j % stride == 0 || j + 4 > ix.len() {
                            let want = audit(m, i, n);
                            same_proof(tree, i, n, &root, &want)?;
                            acc.step(1);
                            acc.state(&(n, i));
                        }
                    }
                    for bad in [n, n + 1, u64::MAX, u64::MAX - 1, 1 << 63] {
                        invalid(tree, bad, n)?;
                    }
                    Ok(())
                };
                observe(&tree, &m, n, true)?;
                for j in 0..pushes {
                    if n + j >= MAXC {
                        break;
                    }
                    acc.beat();
                    let d = data(3, j);
                    tree.push(&d).map_err(|e| format!("push number {} onto {n} leaves failed: {:?}", j + 1, e))?;
                    m.extra.push(leaf(&d));
                    let c = n + j + 1;
                    observe(&tree, &m, c, false).map_err(|e| format!("loaded at {n}, pushed {}: {e}", j + 1))?;
                    acc.step(1);
                }
                // what was written: exactly the perfect subtrees completed by the pushes
                let total = n + m.extra.len() as u64;
                let mut want: BTreeMap<u64, (u64, H)> = BTreeMap::new();
                for e in n + 1..=total {
                    let mut s = 1u64;
                    while e % s == 0 {
                        let k = in_order(e - s, e);
                        want.insert(k, (k, m.perfect(e - s, s)));
                        if s > e / 2 {
                            break;
                        }
                        s *= 2;
                    }
                }
                if *st.overlay.borrow() != want {
                    return Err(format!(
                        "pushing {} leaves onto {n} stored entries {:?}, expected {:?}",
                        m.extra.len(),
                        st.overlay.borrow().keys().collect::<Vec<_>>(),
                        want.keys().collect::<Vec<_>>()
                    ));
                }
                // loading again at the new size
                let t2 = binary::MerkleTree::<BTab, Virt>::load(st.clone(), total)
                    .map_err(|e| format!("load({total}) after pushing: {:?}", e))?;
                observe(&t2, &m, total, false).map_err(|e| format!("loaded at {n}, pushed to {total}, loaded again: {e}"))?;
                acc.trace(1);
                Ok(())
            },
            move |i| format!("virtual tree of {} leaves", c2[i as usize]),
        ),
        Space::new(
            format!("{} structured leaf counts: load from a store of nothing but the peaks, push, load again", counts2.len()),
            counts2.len() as u64,
            move |ci, acc| {
                let n = counts2[ci as usize];
                let st = Virt::only_peaks(n);
                let mut m = VModel { base: n, extra: vec![] };
                let mut tree = binary::MerkleTree::<BTab, Virt>::load(st.clone(), n)
                    .map_err(|e| format!("load({n}) with only the peaks stored failed: {:?}", e))?;
                for j in 0..=pushes {
                    let c = n + j;
                    let root = root_of(&m, c);
                    if tree.root() != root {
                        return Err(format!(
                            "loaded at {n} from the peaks, pushed {j}: root {} differs from {}",
                            hx(&tree.root()),
                            hx(&root)
                        ));
                    }
                    let again = binary::MerkleTree::<BTab, Virt>::load(st.clone(), c)
                        .map_err(|e| format!("loaded at {n} from the peaks, pushed {j}, load({c}): {:?}", e))?;
                    if again.root() != root {
                        return Err(format!("loaded at {n} from the peaks, pushed {j}, loaded again: another root"));
                    }
                    acc.step(3);
                    acc.state(&("peaks", n, j));
                    if c >= MAXC || j == pushes {
                        break;
                    }
                    let d = data(4, j);
                    tree.push(&d).map_err(|e| format!("push number {} onto {n} leaves failed: {:?}", j + 1, e))?;
                    m.extra.push(leaf(&d));
                }
                acc.trace(1);
                Ok(())
            },
            move |i| format!("peaks of {} leaves", c3[i as usize]),
        ),
    ]
}
