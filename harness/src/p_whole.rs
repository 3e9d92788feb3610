//! C26, C27: properties of all trees together: independence, and the cost of operations.
use crate::engine::*;
use crate::p_binary::{self, structured_counts, structured_indices};
use crate::p_sparse;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::{binary, sparse};
use std::sync::{mpsc, Arc, OnceLock};

// ------------------------------------------------------------------ C26

/// A tree of some kind, driven by numbers; every step answers with all that can be observed.
type Stepper = Box<dyn FnMut(usize) -> u64>;
const KINDS: [&str; 6] = ["binary", "in-memory binary", "sparse", "in-memory sparse", "sum", "reloaded binary"];
const OPS: usize = 4;

fn stepper(kind: usize) -> Stepper {
    let key = |o: usize| [ZERO, flip(&ZERO, 255), flip(&ZERO, 0)][o % 3];
    match kind {
        0 | 5 => {
            let st = p_binary::Store::new();
            let mut t = p_binary::Tree::new(st.clone());
            let mut n = 0u64;
            Box::new(move |o| {
                match o {
                    0 => drop(t.push(&[n as u8, 0])),
                    1 => drop(t.push(&[n as u8, 1])),
                    2 => drop(t.push(&[])),
                    _ => n -= (n > 0) as u64,
                }
                n += (o < 3) as u64;
                if o == 3 || kind == 5 {
                    match p_binary::Tree::load(st.clone(), n) {
                        Ok(x) => t = x,
                        Err(e) => return fp(&format!("{:?}", e)),
                    }
                }
                fp(&(t.root(), (0..n + 2).map(|i| t.prove(i).map_err(|e| format!("{:?}", e))).collect::<Vec<_>>(), st.snapshot()))
            })
        }
        1 => {
            let mut t = binary::in_memory::MerkleTree::new();
            let mut n = 0u64;
            Box::new(move |o| {
                match o {
                    0 => t.push(&[n as u8, 0]),
                    1 => t.push(&[n as u8, 1]),
                    2 => t.push(&[]),
                    _ => {
                        t = binary::in_memory::MerkleTree::default();
                        n = 0;
                    }
                }
                n += (o < 3) as u64;
                fp(&(t.root(), (0..n + 2).map(|i| t.prove(i)).collect::<Vec<_>>()))
            })
        }
        2 => {
            let st = Mem::<STab>::new();
            let mut t = sparse::MerkleTree::<STab, Mem<STab>>::new(st.clone());
            Box::new(move |o| {
                let r = match o {
                    0 => t.update(&key(0), b"a"),
                    1 => t.update(&key(1), b"a"),
                    2 => t.update(&key(2), b"b"),
                    _ => t.delete(&key(1)),
                };
                fp(&(r.map_err(|e| format!("{:?}", e)), t.root(), st.snapshot()))
            })
        }
        3 => {
            let mut t = sparse::in_memory::MerkleTree::new();
            Box::new(move |o| {
                match o {
                    0 => t.update(&key(0), b"a"),
                    1 => t.update(&key(1), b"c"),
                    2 => t.update(&key(0), b"b"),
                    _ => t.delete(&key(0)),
                }
                fp(&t.root())
            })
        }
        _ => {
            let mut t = crate::p_sum::new_tree();
            Box::new(move |o| {
                let r = match o {
                    0 => (t.push)(1, b"a"),
                    1 => (t.push)(2, b"a"),
                    2 => (t.push)(1 << 40, b""),
                    _ => (t.root)().map(|_| ()),
                };
                let root = (t.root)();
                fp(&(r.is_ok(), root.map_err(|e| format!("{:?}", e)), (t.dump)()))
            })
        }
    }
}
fn alone(kind: usize, script: &[usize]) -> Vec<u64> {
    let mut s = stepper(kind);
    script.iter().map(|&o| s(o)).collect()
}
/// The i-th way of merging two scripts of length n (bit set: step of the second).
fn merges(n: usize) -> Vec<u32> {
    (0u32..1 << (2 * n)).filter(|m| m.count_ones() as usize == n).collect()
}
/// A tree on its way from one thread to another. Only one thread has it at a time and the channels
/// order what the threads do.
struct Parcel(Stepper);
unsafe impl Send for Parcel {}
/// Steps (tree, operation, thread)
type Plan = Vec<(usize, usize, usize)>;
/// Carry out the plans, each on new trees of the kinds and each step by its thread.
fn handed(kinds: &[usize], want: &[Vec<u64>], plans: &[Plan], acc: &Acc) -> Res {
    std::thread::scope(|sc| {
        let spawn = || {
            let (tx, rx) = mpsc::channel::<(Parcel, usize)>();
            let (tx2, rx2) = mpsc::channel::<(Parcel, u64)>();
            spawn_in(sc, 4, move || {
                while let Ok((mut p, o)) = rx.recv() {
                    let r = (p.0)(o);
                    if tx2.send((p, r)).is_err() {
                        break;
                    }
                }
            });
            (tx, rx2)
        };
        let ts = [spawn(), spawn()];
        for plan in plans {
            let mut trees: Vec<Option<Parcel>> = kinds.iter().map(|k| Some(Parcel(stepper(*k)))).collect();
            let mut at = vec![0; trees.len()];
            for &(tree, o, thread) in plan {
                let t = trees[tree].take().unwrap();
                ts[thread].0.send((t, o)).map_err(|_| "the thread is gone".to_string())?;
                let (t, got) = ts[thread].1.recv().map_err(|_| format!("{:?}: an operation panicked on its thread", plan))?;
                trees[tree] = Some(t);
                if got != want[tree][at[tree]] {
                    return Err(format!(
                        "steps (tree, operation, thread) {:?}: tree {tree}'s step {} differs from the same tree alone on one thread",
                        plan, at[tree]
                    ));
                }
                at[tree] += 1;
                acc.step(1);
            }
            acc.trace(1);
            acc.beat();
            acc.state(&("handed", kinds, plan));
        }
        Ok(())
    })
}
pub fn c26(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let n = t.pick(3usize, 4);
    let ms = merges(n);
    let scripts = (OPS as u64).pow(n as u32);
    let (k, m) = (KINDS.len() as u64, ms.len() as u64);
    // unordered pairs: exchanging the trees exchanges the interleavings
    let pairs: Vec<(usize, usize)> = (0..KINDS.len()).flat_map(|a| (a..KINDS.len()).map(move |b| (a, b))).collect();
    let np = pairs.len() as u64;
    let pairs2 = pairs.clone();
    let dec = move |mut i: u64| {
        let merge = (i % m) as usize;
        i /= m;
        let (b, a) = (digits(i % scripts, OPS as u64, n), digits(i / scripts % scripts, OPS as u64, n));
        i /= scripts * scripts;
        let (ka, kb) = pairs[i as usize];
        (ka, kb, a, b, merge)
    };
    let dec2 = dec.clone();
    let solo: Arc<Vec<OnceLock<Vec<u64>>>> = Arc::new((0..k * scripts).map(|_| OnceLock::new()).collect());
    let solo_of = move |kind: usize, script: &[usize]| -> Vec<u64> {
        let at = script.iter().fold(kind, |x, &o| x * OPS + o);
        solo[at].get_or_init(|| alone(kind, script)).clone()
    };
    let ms1 = ms.clone();
    let describe = move |i: u64| {
        let (ka, kb, a, b, mi) = dec2(i);
        format!("{} {:?} and {} {:?}, interleaving {:0w$b}", KINDS[ka], a, KINDS[kb], b, ms1[mi], w = 2 * n)
    };
    let ms2 = ms.clone();
    v.push(Space::new(
        format!("every interleaving of two scripts of {n} operations on every pair of kinds of tree"),
        np * scripts * scripts * m,
        move |i, acc| {
            let (ka, kb, a, b, mi) = dec(i);
            let (wa, wb) = (solo_of(ka, &a), solo_of(kb, &b));
            let (mut ta, mut tb) = (stepper(ka), stepper(kb));
            let (mut pa, mut pb) = (0, 0);
            for j in 0..2 * n {
                if ms2[mi] >> j & 1 == 0 {
                    if ta(a[pa]) != wa[pa] {
                        return Err(format!("the first tree's step {pa} differs from the same tree alone"));
                    }
                    pa += 1;
                } else {
                    if tb(b[pb]) != wb[pb] {
                        return Err(format!("the second tree's step {pb} differs from the same tree alone"));
                    }
                    pb += 1;
                }
                acc.step(1);
            }
            acc.trace(1);
            if mi == 0 {
                acc.state(&(ka, kb, &a, &b));
            }
            Ok(())
        },
        describe.clone(),
    ));
    // the same with each tree on a thread of its own, handed one step at a time
    let ms3 = ms.clone();
    let scripts2 = 2u64.pow(n as u32);
    v.push(Space::new(
        format!("the same with each tree on its own thread, every interleaving of steps, scripts of two operations"),
        k * k * scripts2 * m,
        move |i, acc| {
            let mi = (i % m) as usize;
            let a: Vec<usize> = digits(i / m % scripts2, 2, n).into_iter().map(|x| x * 3).collect();
            let b: Vec<usize> = a.iter().rev().map(|x| 3 - x).collect();
            let kk = i / m / scripts2;
            let (ka, kb) = ((kk / k) as usize, (kk % k) as usize);
            let (wa, wb) = (alone(ka, &a), alone(kb, &b));
            std::thread::scope(|sc| {
                let spawn = |kind: usize| {
                    let (tx, rx) = mpsc::channel::<usize>();
                    let (tx2, rx2) = mpsc::channel::<u64>();
                    spawn_in(sc, 4, move || {
                        let mut s = stepper(kind);
                        while let Ok(o) = rx.recv() {
                            if tx2.send(s(o)).is_err() {
                                break;
                            }
                        }
                    });
                    (tx, rx2)
                };
                let (ta, tb) = (spawn(ka), spawn(kb));
                let (mut pa, mut pb) = (0, 0);
                for j in 0..2 * n {
                    let first = ms3[mi] >> j & 1 == 0;
                    let (t, s, w, p) = if first { (&ta, &a, &wa, &mut pa) } else { (&tb, &b, &wb, &mut pb) };
                    t.0.send(s[*p]).map_err(|_| "the thread is gone".to_string())?;
                    let got = t.1.recv().map_err(|_| "the operation panicked on its thread".to_string())?;
                    if got != w[*p] {
                        return Err(format!(
                            "the {} tree's step {p} differs from the same tree alone",
                            if first { "first" } else { "second" }
                        ));
                    }
                    *p += 1;
                    acc.step(1);
                }
                acc.trace(1);
                Ok(())
            })
        },
        move |i| {
            let a: Vec<usize> = digits(i / m % scripts2, 2, n).into_iter().map(|x| x * 3).collect();
            let kk = i / m / scripts2;
            format!(
                "{} {:?} and {} (mirrored), interleaving {:b}, two threads",
                KINDS[(kk / k) as usize],
                a,
                KINDS[(kk % k) as usize],
                ms[(i % m) as usize]
            )
        },
    ));
    // trees handed from thread to thread
    let len = t.pick(5usize, 6);
    let n = (OPS as u64).pow(len as u32);
    v.push(Space::new(
        format!("a tree handed between two threads: every script of {len} operations, every choice of the thread of each"),
        k * n,
        move |i, acc| {
            let (kind, script) = ((i / n) as usize, digits(i % n, OPS as u64, len));
            let want = alone(kind, &script);
            let plans: Vec<Plan> =
                (0..1 << (len - 1)).map(|on| script.iter().enumerate().map(|(p, o)| (0, *o, on << 1 >> p & 1)).collect()).collect();
            handed(&[kind], &[want], &plans, acc)
        },
        move |i| format!("{} {:?}", KINDS[(i / n) as usize], digits(i % n, OPS as u64, len)),
    ));
    let two = move |i: u64| {
        let (ka, kb) = pairs2[(i / 256) as usize];
        (ka, kb, digits(i / 16 % 16, 4, 2), digits(i % 16, 4, 2))
    };
    let two2 = two.clone();
    v.push(Space::new(
        "two trees handed between two threads: every interleaving of two scripts of 2 operations, every choice of the thread of each",
        np * 256,
        move |i, acc| {
            let (ka, kb, a, b) = two(i);
            let mut plans: Vec<Plan> = vec![];
            for m in merges(2) {
                for on in 0..8 {
                    let mut next = [a.iter(), b.iter()];
                    plans.push(
                        (0..4)
                            .map(|j| {
                                let second = (m >> j & 1) as usize;
                                (second, *next[second].next().unwrap(), on << 1 >> j & 1)
                            })
                            .collect(),
                    );
                }
            }
            handed(&[ka, kb], &[alone(ka, &a), alone(kb, &b)], &plans, acc)
        },
        move |i| {
            let (ka, kb, a, b) = two2(i);
            format!("{} {:?} and {} {:?}", KINDS[ka], a, KINDS[kb], b)
        },
    ));
    // many trees of one kind, stepped in turn, some dropped half way
    let many = t.pick(300usize, 3000);
    v.push(Space::new(
        format!("{many} trees of a kind stepped in turn, every third dropped half way"),
        k,
        move |kind, acc| {
            let kind = kind as usize;
            let script = |i: usize| -> Vec<usize> { (0..8).map(|j| (i / 4usize.pow(j as u32 % 3) + j) % OPS).collect() };
            let want: Vec<Vec<u64>> = (0..many).map(|i| alone(kind, &script(i))).collect();
            let mut ts: Vec<Option<Stepper>> = (0..many).map(|_| Some(stepper(kind))).collect();
            for j in 0..8 {
                for i in 0..many {
                    if j == 4 && i % 3 == 0 {
                        ts[i] = None;
                    }
                    if let Some(s) = &mut ts[i] {
                        if s(script(i)[j]) != want[i][j] {
                            return Err(format!("tree {i} of {many}, step {j}, differs from the same tree alone"));
                        }
                        acc.step(1);
                    }
                    acc.state(&(kind, i, j));
                }
            }
            acc.trace(many as u64);
            Ok(())
        },
        |k| KINDS[k as usize].into(),
    ));
    v
}

// ------------------------------------------------------------------ C27

fn bits(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}
fn within(what: &str, calls: u64, limit: u64) -> Res {
    if calls > limit {
        return Err(format!("{what} made {calls} storage accesses; {limit} is already generous"));
    }
    Ok(())
}
/// generous limits, several times what the operations need
fn push_limit(n: u64) -> u64 {
    6 * (bits(n) + 4)
}
fn prove_limit(n: u64) -> u64 {
    8 * (bits(n) + 4)
}
fn load_limit(n: u64) -> u64 {
    4 * (bits(n) + 4)
}
fn sparse_limit(depth: u64) -> u64 {
    9 * (depth + 4)
}
/// the depth at which the path of k ends, among the given sorted keys: one more than the longest common prefix
fn depth_among(keys: &std::collections::BTreeSet<H>, k: &H) -> u64 {
    let common = |o: &H| (0..256).take_while(|&d| bit(o, d) == bit(k, d)).count() as u64 + 1;
    let lo = keys.range(..*k).next_back().map_or(0, common);
    let hi = keys.range(*k..).find(|o| *o != k).map_or(0, common);
    lo.max(hi)
}
/// and the depth of the neighbour that may move when k comes or goes
pub fn depth_near(keys: &std::collections::BTreeSet<H>, k: &H) -> u64 {
    let mut d = depth_among(keys, k);
    for o in [keys.range(..*k).next_back(), keys.range(*k..).find(|o| *o != k)].into_iter().flatten() {
        d = d.max(depth_among(keys, o));
    }
    d
}
pub fn c27(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(140_000u64, 2_200_000);
    v.push(Space::new(
        format!("binary: every push up to {max} leaves; proofs and loads at structured sizes"),
        4,
        move |s, acc| {
            let st = p_binary::Store::new();
            let mut tree = p_binary::Tree::new(st.clone());
            let asked = p_binary::large_sizes(max, 300);
            let mut next = asked.iter().skip(s as usize).step_by(4).peekable();
            for n in 1..=max {
                acc.beat();
                st.reset_calls();
                tree.push(&n.to_be_bytes()).map_err(|e| format!("push: {:?}", e))?;
                within(&format!("push number {n}"), st.calls(), push_limit(n))?;
                acc.step(1);
                if next.peek() == Some(&&n) {
                    next.next();
                    st.reset_calls();
                    tree.root();
                    within(&format!("root of {n} leaves"), st.calls(), load_limit(n))?;
                    for i in structured_indices(n) {
                        st.reset_calls();
                        tree.prove(i).map_err(|e| format!("prove: {:?}", e))?;
                        within(&format!("prove({i}) of {n} leaves"), st.calls(), prove_limit(n))?;
                        acc.step(1);
                    }
                    st.reset_calls();
                    let _ = tree.prove(n);
                    within(&format!("refusing prove({n}) of {n} leaves"), st.calls(), prove_limit(n))?;
                    for k in [n, n - 1, n / 2, n / 3, n + 1, 2 * n + 1, u64::MAX] {
                        st.reset_calls();
                        let _ = p_binary::Tree::load(st.clone(), k);
                        within(&format!("load({k}) of {n} leaves"), st.calls(), load_limit(k))?;
                        acc.step(1);
                    }
                    acc.state(&(s, n));
                }
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("growing, asked at every fourth size from {s}"),
    ));
    let counts: Vec<u64> = structured_counts(t).into_iter().step_by(t.pick(2, 1)).collect();
    let c2 = counts.clone();
    v.push(Space::new(
        format!("binary: {} structured leaf counts over 63 bits", counts.len()),
        counts.len() as u64,
        move |i, acc| {
            let n = counts[i as usize];
            let st = Virt::new(n);
            st.calls.set(0);
            let mut tree = binary::MerkleTree::<BTab, Virt>::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
            within(&format!("load({n})"), st.calls.get(), load_limit(n))?;
            for i in structured_indices(n) {
                st.calls.set(0);
                tree.prove(i).map_err(|e| format!("prove({i}) of {n}: {:?}", e))?;
                within(&format!("prove({i}) of {n} leaves"), st.calls.get(), prove_limit(n))?;
                acc.step(1);
            }
            for j in 0..3u64 {
                if n + j + 1 >= 1 << 63 {
                    break;
                }
                st.calls.set(0);
                tree.push(&[j as u8]).map_err(|e| format!("push onto {n}: {:?}", e))?;
                within(&format!("push {j} onto {n} leaves"), st.calls.get(), push_limit(n))?;
                acc.step(1);
            }
            acc.state(&("virtual", n));
            acc.trace(1);
            Ok(())
        },
        move |i| format!("{} leaves", c2[i as usize]),
    ));
    let max = t.pick(140_000u64, 1_100_000);
    v.push(Space::new(
        format!("sum: every push up to {max} leaves, roots in between"),
        3,
        move |s, acc| {
            let mut tree = crate::p_sum::new_tree();
            for n in 1..=max {
                acc.beat();
                (tree.disarm)();
                (tree.push)(1, &n.to_be_bytes()).map_err(|e| format!("push: {:?}", e))?;
                within(&format!("push number {n}"), (tree.calls)(), push_limit(n))?;
                if s == 0 || n % (s * 1000 + 1) == 0 {
                    (tree.disarm)();
                    (tree.root)().map_err(|e| format!("root: {:?}", e))?;
                    within(&format!("root of {n} leaves"), (tree.calls)(), push_limit(n))?;
                }
                acc.step(1);
                if n % 16 == 0 {
                    acc.state(&("sum", s, n));
                }
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("growing, root asked after every {} pushes", s * 1000 + 1),
    ));
    let fams = p_sparse::families(t);
    let names: Vec<String> = fams.iter().map(|f| format!("{} {}", f.1, f.0)).collect();
    v.push(Space::new(
        "sparse: insertions, overwrites, deletions and loads in large trees",
        fams.len() as u64,
        move |i, acc| {
            let (name, n, key) = fams[i as usize];
            let st = Mem::<STab>::new();
            let mut tree = sparse::MerkleTree::<STab, Mem<STab>>::new(st.clone());
            let mut keys = std::collections::BTreeSet::new();
            let mut k = 0u64;
            let at = |j: u32| key(((j as u64 * 40503 + 1) % n as u64) as u32);
            let mut go = |k: &H, d: &[u8], keys: &mut std::collections::BTreeSet<H>| -> Res {
                acc.beat();
                let before = depth_near(keys, k);
                st.reset_calls();
                tree.update(k, d).map_err(|e| format!("update: {:?}", e))?;
                let calls = st.calls();
                if d.is_empty() {
                    keys.remove(k);
                } else {
                    keys.insert(*k);
                }
                let depth = before.max(depth_near(keys, k));
                within(
                    &format!(
                        "{name}: {} {} among {} keys (path of {depth})",
                        if d.is_empty() { "delete" } else { "update" },
                        hx(k),
                        keys.len()
                    ),
                    calls,
                    sparse_limit(depth),
                )?;
                acc.step(1);
                Ok(())
            };
            for j in 0..n {
                go(&key(j), &j.to_be_bytes(), &mut keys)?;
            }
            for j in (0..n).step_by(3) {
                go(&at(j), b"overwritten", &mut keys)?;
            }
            for j in 0..n.min(3000) {
                // absent keys
                go(&flip(&at(j), 100), b"", &mut keys)?;
            }
            for j in 0..n {
                go(&at(j), b"", &mut keys)?;
                k += 1;
                if k % 64 == 0 {
                    acc.state(&(name, j));
                }
            }
            for j in 0..n.min(2000) {
                go(&key(j), b"again", &mut keys)?;
            }
            let root = tree.root();
            st.reset_calls();
            sparse::MerkleTree::<STab, Mem<STab>>::load(st.clone(), &root).map_err(|e| format!("load: {:?}", e))?;
            within("load", st.calls(), 8)?;
            acc.trace(1);
            Ok(())
        },
        move |i| names[i as usize].clone(),
    ));
    // pairs of keys at every depth, alone and among others
    v.push(Space::new(
        "sparse: keys diverging at each of 256 depths x 5 patterns",
        256 * 5,
        |i, acc| {
            let a = p_sparse::base((i % 5) as usize);
            let d = (i / 5) as usize;
            let st = Mem::<STab>::new();
            let mut tree = sparse::MerkleTree::<STab, Mem<STab>>::new(st.clone());
            let mut keys = std::collections::BTreeSet::new();
            let (b, c) = (flip(&a, d), flip(&flip(&a, d), 255 - d));
            for (k, v) in [
                (&a, "1"),
                (&b, "2"),
                (&b, "3"),
                (&c, "4"),
                (&a, ""),
                (&a, ""),
                (&a, "5"),
                (&c, ""),
                (&b, ""),
                (&c, "1"),
                (&a, ""),
                (&c, ""),
            ] {
                let before = depth_near(&keys, k);
                st.reset_calls();
                tree.update(k, v.as_bytes()).map_err(|e| format!("update: {:?}", e))?;
                let calls = st.calls();
                if v.is_empty() {
                    keys.remove(k);
                } else {
                    keys.insert(*k);
                }
                let depth = before.max(depth_near(&keys, k));
                within(&format!("update {} to {v:?} (path of {depth})", hx(k)), calls, sparse_limit(depth))?;
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&("depth", i));
            Ok(())
        },
        |i| format!("pattern {}, depth {}", i % 5, i / 5),
    ));
    v
}
