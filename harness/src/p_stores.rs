//! C32: trees work over any storage that keeps what it is given.
use crate::engine::*;
use crate::p_binary::data;
use crate::p_sparse::{self, alphabet, content_hash, count_upto, is_deep, model_apply, seq_upto, shapes, shows, Op};
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::common::StorageMap;
use fuel_merkle::{binary, sparse, sum};
use std::collections::BTreeMap;

/// What a binary tree answers where the library demands more of a storage than to be readable.
trait Refused: Sized {
    fn new(_: &Lend<BTab>) -> Result<Self, String> {
        Err("not accepted".into())
    }
    fn load(_: &Lend<BTab>, _: u64) -> Result<Self, String> {
        Err("not accepted".into())
    }
    fn root(&self) -> H {
        [0xbb; 32]
    }
    fn prove(&self, _: u64) -> Result<(H, Vec<H>), String> {
        Err("not accepted".into())
    }
}
impl Refused for binary::MerkleTree<BTab, &Lend<BTab>> {}
type STree = sparse::MerkleTree<STab, Mem<STab>>;
fn err<E: std::fmt::Debug>(what: &str, e: E) -> String {
    format!("{what} failed on a working store: {:?}", e)
}
fn whole(st: &Mem<STab>, m: &SMap, who: &str) -> Res {
    for (h, p) in sp_nodes(m) {
        if st.peek(&h) != Some(p) {
            return Err(format!("{who}: node {} of height {} is missing or altered in the shared store", hx(&h), p.0));
        }
    }
    Ok(())
}
/// entries that are no nodes of any tree, under keys a tree might look at by mistake
fn junk(keys: &[H]) -> BTreeMap<H, Prim> {
    let mut m = BTreeMap::new();
    let mut ks = vec![ZERO, [0xff; 32], empty(), value_digest(b"a"), value_digest(b"")];
    ks.extend(keys);
    ks.extend(keys.iter().map(|k| sha(&[k])));
    for (i, k) in ks.into_iter().enumerate() {
        let v: Prim = match i % 4 {
            0 => (0, 0, [7; 32], [8; 32]),
            1 => (255, 1, k, sha(&[&k])),
            2 => (3, 99, k, k),
            _ => (256, 1, ZERO, ZERO),
        };
        m.insert(k, v);
    }
    m
}
/// Run a sequence on any sparse tree, reloading where told; the roots after each operation.
fn sparse_run<S>(mut st: S, ops: &[Op]) -> Result<Vec<H>, String>
where
    S: fuel_merkle::storage::StorageMutate<STab>,
    S::Error: std::fmt::Debug + Clone + 'static,
{
    let mut roots = vec![];
    let mut t = sparse::MerkleTree::<STab, &mut S>::new(&mut st);
    for o in ops {
        match o {
            Op::Up(k, v) => t.update(k, v).map_err(|e| err("update", e))?,
            Op::Del(k) => t.delete(k).map_err(|e| err("delete", e))?,
            Op::Reload => {
                let r = t.root();
                drop(t);
                t = sparse::MerkleTree::load(&mut st, &r).map_err(|e| err("load", e))?;
            }
        }
        roots.push(t.root());
    }
    Ok(roots)
}

pub fn c32(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // two sparse trees in one store
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        for (what, disjoint) in [("updates of equal and different entries", false), ("updates and deletions of different values", true)] {
            let len = if deep { t.pick(4, 5) } else { t.pick(5usize, 6) };
            let keys: Vec<H> = keys.iter().take(3).cloned().collect();
            let mut al: Vec<(usize, Op)> = vec![];
            for who in 0..2 {
                for k in &keys {
                    if disjoint {
                        al.push((who, Op::Up(*k, vec![who as u8 + 1])));
                        al.push((who, Op::Del(*k)));
                    } else {
                        al.push((who, Op::Up(*k, b"a".to_vec())));
                        al.push((who, Op::Up(*k, b"b".to_vec())));
                    }
                }
                al.push((who, Op::Reload));
            }
            let b = al.len() as u64;
            let al2 = al.clone();
            v.push(Space::new(
                format!("two sparse trees in one store, {what}, keys {name}, up to {len} operations"),
                b.pow(len as u32),
                move |i, acc| {
                    let d = digits(i, b, len);
                    let from = first_visit(&d);
                    let st = Mem::<STab>::fingerprinted(content_hash);
                    let mut ts = [STree::new(st.clone()), STree::new(st.clone())];
                    let mut ms = [SMap::new(), SMap::new()];
                    for (p, &x) in d.iter().enumerate() {
                        let (who, op) = &al[x];
                        let tr = &mut ts[*who];
                        match op {
                            Op::Up(k, val) => tr.update(k, val).map_err(|e| err("update", e))?,
                            Op::Del(k) => tr.delete(k).map_err(|e| err("delete", e))?,
                            Op::Reload => {
                                let r = tr.root();
                                *tr = STree::load(st.clone(), &r).map_err(|e| err("load", e))?;
                            }
                        }
                        model_apply(&mut ms[*who], op);
                        if p >= from {
                            for w in 0..2 {
                                let r = sp_root(&ms[w]);
                                if ts[w].root() != r {
                                    return Err(format!(
                                        "after {} operations: tree {w} has the root {}, expected {}",
                                        p + 1,
                                        hx(&ts[w].root()),
                                        hx(&r)
                                    ));
                                }
                                whole(&st, &ms[w], &format!("after {} operations, tree {w}", p + 1))?;
                                STree::load(st.clone(), &r).map_err(|e| err("load", e))?;
                            }
                            acc.step(1);
                            acc.state(&(st.sum(), ts[0].root(), ts[1].root()));
                        }
                    }
                    acc.trace(1);
                    Ok(())
                },
                move |i| {
                    digits(i, b, len)
                        .iter()
                        .map(|&x| format!("tree {} {}", al2[x].0, p_sparse::show(&al2[x].1)))
                        .collect::<Vec<_>>()
                        .join("; ")
                },
            ));
        }
    }
    // foreign entries, lending stores, stores by reference and the library's own map
    for (name, keys) in shapes() {
        let keys: Vec<H> = keys.iter().take(3).cloned().collect();
        let al = alphabet(&keys, 2, false, true);
        let len = if is_deep(name) { t.pick(4, 5) } else { t.pick(5usize, 6) };
        let al2 = al.clone();
        v.push(Space::new(
            format!("sparse tree over each kind of store, and with foreign entries, keys {name}, up to {len} operations"),
            count_upto(al.len() as u64, len),
            move |i, acc| {
                let ops = seq_upto(&al, i, len);
                let mut m = SMap::new();
                let mut want = vec![];
                for o in &ops {
                    model_apply(&mut m, o);
                    want.push(sp_root(&m));
                }
                let same = |got: Result<Vec<H>, String>, what: &str| -> Res {
                    acc.step(ops.len() as u64);
                    match got {
                        Ok(g) if g == want => Ok(()),
                        Ok(g) => {
                            let p = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                            Err(format!("{what}: root {} after {} operations, expected {}", hx(&g[p]), p + 1, hx(&want[p])))
                        }
                        Err(e) => Err(format!("{what}: {e}")),
                    }
                };
                let plain = Mem::<STab>::new();
                same(sparse_run(plain.clone(), &ops), "plain store")?;
                let mut lend = Lend::<STab>::new();
                same(sparse_run(&mut lend, &ops), "lending store by reference")?;
                if lend.map != plain.snapshot() {
                    return Err("the lending store holds other nodes than the plain one".into());
                }
                let mut map = StorageMap::<STab>::new();
                same(sparse_run(&mut map, &ops), "the library's map by reference")?;
                same(sparse_run(StorageMap::<STab>::new(), &ops), "the library's map by value")?;
                let j = junk(&keys);
                let st = Mem::<STab>::from_map(j.clone());
                same(sparse_run(st.clone(), &ops), "store with foreign entries")?;
                let mut both = plain.snapshot();
                for (k, x) in &j {
                    both.insert(*k, *x);
                }
                let got = st.snapshot();
                if got != both {
                    let k = got
                        .iter()
                        .find(|(k, x)| both.get(*k) != Some(x))
                        .or_else(|| both.iter().find(|(k, x)| got.get(*k) != Some(x)))
                        .unwrap()
                        .0;
                    return Err(format!(
                        "store with foreign entries: the {} entry {} is not as expected",
                        if j.contains_key(k) { "foreign" } else { "own" },
                        hx(k)
                    ));
                }
                acc.state(&fp(&got.iter().collect::<Vec<_>>()));
                acc.trace(6);
                Ok(())
            },
            move |i| shows(&seq_upto(&al2, i, len)),
        ));
    }
    // binary trees
    let max = t.pick(40u64, 150);
    v.push(Space::new(
        format!("binary tree over each kind of store, and with foreign or stale entries, every size up to {max}"),
        max + 1,
        move |j, acc| {
            let n = max - j;
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            fn run<S>(mut st: S, n: u64, at: u64, m: &BinModel) -> Res
            where
                S: fuel_merkle::storage::StorageMutate<BTab>,
                S::Error: std::fmt::Debug,
            {
                let mut t = binary::MerkleTree::<BTab, &mut S>::new(&mut st);
                for i in 0..n {
                    if i == at {
                        drop(t);
                        t = binary::MerkleTree::load(&mut st, i).map_err(|e| err("load", e))?;
                    }
                    t.push(&data(1, i)).map_err(|e| err("push", e))?;
                    if t.root() != m.root_at(i + 1) {
                        return Err(format!("wrong root of {} leaves", i + 1));
                    }
                }
                for i in 0..n {
                    if t.prove(i).map_err(|e| err("prove", e))? != (m.root(), m.proof(i)) {
                        return Err(format!("wrong proof of {i} of {n}"));
                    }
                }
                Ok(())
            }
            let own: BTreeMap<u64, H> = m.stored(n).into_iter().collect();
            let plain = Mem::<BTab>::new();
            run(plain.clone(), n, n / 2, &m).map_err(|e| format!("plain store: {e}"))?;
            let mut lend = Lend::<BTab>::new();
            run(&mut lend, n, n / 2, &m).map_err(|e| format!("lending store by reference: {e}"))?;
            if lend.map != plain.snapshot() {
                return Err("the lending store holds other nodes than the plain one".into());
            }
            let mut map = StorageMap::<BTab>::new();
            run(&mut map, n, n / 2, &m).map_err(|e| format!("the library's map by reference: {e}"))?;
            run(StorageMap::<BTab>::new(), n, n / 3, &m).map_err(|e| format!("the library's map by value: {e}"))?;
            acc.step(4 * n);
            // a read-only store is enough for loading and proving
            let ro = plain.snapshot();
            let ro = Lend::<BTab> { map: ro };
            type ReadOnly<'a> = binary::MerkleTree<BTab, &'a Lend<BTab>>;
            for c in 0..=n {
                let t = ReadOnly::load(&ro, c).map_err(|e| err("load by shared reference", e))?;
                if t.root() != m.root_at(c) {
                    return Err(format!("loaded by shared reference: wrong root of {c} leaves"));
                }
                for i in 0..c {
                    if t.prove(i).map_err(|e| err("prove by shared reference", e))? != (m.root_at(c), m.proof_at(i, c)) {
                        return Err(format!("loaded by shared reference: wrong proof of {i} of {c}"));
                    }
                }
                acc.step(c + 1);
            }
            // stale entries under every key, under one key, and under the keys beyond the tree
            let keys: Vec<u64> = (0..4 * n + 4).chain((0..64).map(|b| u64::MAX >> b)).chain((0..64).map(|b| 1 << b)).collect();
            let bad = |k: u64, how: u64| match how {
                0 => (k, [9u8; 32]),
                1 => (k ^ 1, ZERO),
                _ => (0, virt_digest(k)),
            };
            let mut sets: Vec<BTreeMap<u64, (u64, H)>> = keys.iter().map(|&k| BTreeMap::from([(k, bad(k, k % 3))])).collect();
            for how in 0..3 {
                sets.push(keys.iter().map(|&k| (k, bad(k, how))).collect());
                sets.push(keys.iter().filter(|k| !own.contains_key(k)).map(|&k| (k, bad(k, how))).collect());
            }
            for s in sets {
                acc.beat();
                let st = Mem::<BTab>::from_map(s.clone());
                let first = s.keys().next().cloned();
                let what = || format!("store holding {} stale entries, the first under {:?}", s.len(), first);
                run(st.clone(), n, n, &m).map_err(|e| format!("{}: {e}", what()))?;
                let now = st.snapshot();
                for (k, x) in &s {
                    match own.get(k) {
                        None if now.get(k) != Some(x) => return Err(format!("{}: the foreign entry {k} was changed", what())),
                        Some(h) if now.get(k) != Some(&(*k, *h)) => return Err(format!("{}: the own entry {k} was not written", what())),
                        _ => {}
                    }
                }
                if now.len() != own.len() + s.keys().filter(|k| !own.contains_key(k)).count() {
                    return Err(format!("{}: entries were left that are neither own nor foreign", what()));
                }
                acc.step(n);
                acc.state(&(n, &now));
            }
            acc.trace(1);
            Ok(())
        },
        move |j| format!("{} leaves", max - j),
    ));
    // sum trees: two in one store
    let al: Vec<(usize, Option<(u64, &[u8])>)> = (0..2usize)
        .flat_map(|w| [Some((0u64, &b""[..])), Some((1, &b"a"[..])), Some((1 << 40, &b"a"[..])), None].map(|x| (w, x)))
        .collect();
    let b = al.len() as u64;
    let len = t.pick(7usize, 8);
    let al2 = al.clone();
    v.push(Space::new(
        format!("two sum trees in one store, up to {len} operations"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let st = Mem::<NTab<_>>::new();
            let mut ts =
                [sum::MerkleTree::<NTab<_>, Mem<NTab<_>>>::new(st.clone()), sum::MerkleTree::<NTab<_>, Mem<NTab<_>>>::new(st.clone())];
            let mut ls: [Vec<SNode>; 2] = [vec![], vec![]];
            for (p, &x) in d.iter().enumerate() {
                let (w, op) = al[x];
                match op {
                    Some((f, dt)) => {
                        ts[w].push(f, dt).map_err(|e| err("push", e))?;
                        ls[w].push(sum_leaf(f, dt));
                    }
                    None => {
                        let (f, h) = ts[w].root().map_err(|e| err("root", e))?;
                        if (f as u128, h) != sum_root(&ls[w]) {
                            return Err(format!("after {} operations: tree {w} of two in one store has a wrong root", p + 1));
                        }
                    }
                }
                if p >= from {
                    acc.step(1);
                    acc.state(&(
                        &ls[0].iter().map(|n| n.hash).collect::<Vec<_>>(),
                        &ls[1].iter().map(|n| n.hash).collect::<Vec<_>>(),
                        st.len(),
                    ));
                }
            }
            for w in 0..2 {
                let (f, h) = ts[w].root().map_err(|e| err("root", e))?;
                if (f as u128, h) != sum_root(&ls[w]) {
                    return Err(format!("tree {w} of two in one store has a wrong root"));
                }
            }
            let dump =
                st.0.borrow()
                    .map
                    .iter()
                    .map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash(), n.left_child_key(), n.right_child_key())))
                    .collect();
            for l in &ls {
                if !l.is_empty() {
                    crate::p_sum::stored(&dump, l)?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| {
            digits(i, b, len)
                .iter()
                .map(|&x| match al2[x] {
                    (w, Some((f, d))) => format!("tree {w} push({f}, {})", hx(d)),
                    (w, None) => format!("tree {w} root"),
                })
                .collect::<Vec<_>>()
                .join("; ")
        },
    ));
    let max = t.pick(60u64, 300);
    v.push(Space::new(
        format!("sum tree over each kind of store, every size up to {max}"),
        max + 1,
        move |j, acc| {
            let n = max - j;
            let l: Vec<(u64, Vec<u8>)> = (0..n).map(|i| (i * 3, data(1, i))).collect();
            let nodes: Vec<SNode> = l.iter().map(|(f, d)| sum_leaf(*f, d)).collect();
            macro_rules! run {
                ($st:expr, $what:expr) => {{
                    let mut t = sum::MerkleTree::<NTab<_>, _>::new($st);
                    for (f, d) in &l {
                        t.push(*f, d).map_err(|e| err("push", e))?;
                    }
                    let (f, h) = t.root().map_err(|e| err("root", e))?;
                    if (f as u128, h) != sum_root(&nodes) {
                        return Err(format!("{}: wrong root of {n} leaves", $what));
                    }
                    acc.step(n);
                }};
            }
            let mem = Mem::<NTab<_>>::new();
            run!(mem.clone(), "plain store");
            let mut lend = Lend::<NTab<_>>::new();
            run!(&mut lend, "lending store by reference");
            run!(Lend::<NTab<_>>::new(), "lending store by value");
            let mut map = StorageMap::<NTab<_>>::new();
            run!(&mut map, "the library's map by reference");
            run!(StorageMap::<NTab<_>>::new(), "the library's map by value");
            // all nodes of another tree are there already, and stay
            let other = Mem::<NTab<_>>::new();
            let mut t = sum::MerkleTree::<NTab<_>, _>::new(other.clone());
            for (f, d) in &l {
                t.push(f + 1, d).map_err(|e| err("push", e))?;
            }
            t.root().map_err(|e| err("root", e))?;
            let before: BTreeMap<H, (u32, u64, H)> =
                other.0.borrow().map.iter().map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash()))).collect();
            run!(other.clone(), "store with another tree's nodes");
            let after: BTreeMap<H, (u32, u64, H)> =
                other.0.borrow().map.iter().map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash()))).collect();
            if before.iter().any(|(k, x)| after.get(k) != Some(x)) {
                return Err(format!("{n} leaves: another tree's node was changed"));
            }
            let mine: BTreeMap<H, (u32, u64, H)> = mem.0.borrow().map.iter().map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash()))).collect();
            let lent: BTreeMap<H, (u32, u64, H)> = lend.map.iter().map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash()))).collect();
            if mine != lent {
                return Err(format!("{n} leaves: the lending store holds other nodes than the plain one"));
            }
            acc.state(&(n, mine.len(), after.len()));
            acc.trace(6);
            Ok(())
        },
        move |j| format!("{} leaves", max - j),
    ));
    v
}
