//! C33: what trees keep in memory besides their storage.
use crate::alloc::metered;
use crate::engine::*;
use crate::p_sparse;
use crate::p_whole::depth_near;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use crate::{p_binary, p_sum};
use fuel_merkle::{binary, sparse};
use std::cell::Cell;
use std::collections::BTreeSet;

/// bytes a tree of this height may keep, and an operation on it may take meanwhile
fn kept_limit(height: u64) -> i64 {
    8_192 + 1_024 * height as i64
}
fn taken_limit(height: u64) -> i64 {
    32_768 + 8_192 * height as i64
}
fn height(n: u64) -> u64 {
    64 - n.leading_zeros() as u64 + 1
}
/// The account of one tree.
struct Account {
    held: Cell<i64>,
    /// largest share of the limits used so far, per mille
    kept: Cell<i64>,
    taken: Cell<i64>,
}
impl Account {
    fn new() -> Self {
        Account { held: Cell::new(0), kept: Cell::new(0), taken: Cell::new(0) }
    }
    fn run<T>(&self, what: impl Fn() -> String, height: u64, f: impl FnOnce() -> T) -> Result<T, String> {
        let (r, live, peak) = metered(f);
        let held = self.held.get() + live;
        self.held.set(held);
        if held > kept_limit(height) {
            return Err(format!("after {} the tree keeps {held} bytes besides its storage (at most {})", what(), kept_limit(height)));
        }
        if peak > taken_limit(height) {
            return Err(format!("{} takes {peak} bytes of memory (at most {})", what(), taken_limit(height)));
        }
        self.kept.set(self.kept.get().max(held * 1000 / kept_limit(height)));
        self.taken.set(self.taken.get().max(peak * 1000 / taken_limit(height)));
        Ok(r)
    }
    fn drop<T>(&self, what: &str, t: T) -> Res {
        let (_, live, _) = metered(|| drop(t));
        self.held.set(self.held.get() + live);
        if self.held.get() > 4_096 {
            return Err(format!("{what}: the dropped tree left {} bytes behind", self.held.get()));
        }
        Ok(())
    }
    fn note(&self, acc: &Acc, name: &str) {
        // classes of use, so that the numbers of cases add up
        for (what, used) in [("kept", self.kept.get()), ("taken", self.taken.get())] {
            let class = ["less than a tenth", "less than a quarter", "less than a half", "half or more"]
                [[100, 250, 500].iter().filter(|x| used >= **x).count()];
            acc.note(&format!("{name}: cases in which {class} of the limit is {what}"), 1);
        }
    }
}
type BTree = binary::MerkleTree<BTab, p_binary::Store>;
type STree = sparse::MerkleTree<STab, Mem<STab>>;

pub fn c33(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(150_000u64, 2_200_000);
    v.push(Space::new(
        format!("binary: growing to {max} leaves; pushed only, queried, reloaded, failing"),
        4,
        move |s, acc| {
            let a = Account::new();
            let st = p_binary::Store::new();
            let mut tree = a.run(|| "new".into(), 1, || BTree::new(st.clone()))?;
            for n in 1..=max {
                acc.beat();
                let h = height(n);
                let d = [n as u8; 40];
                if s == 3 {
                    // one failing attempt before every push
                    st.arm(1 + n % 5, [Mode::Before, Mode::After, Mode::Down][n as usize % 3]);
                    let done = a.run(|| format!("a failing push number {n}"), h, || tree.push(&d).is_ok())?;
                    st.disarm();
                    if done {
                        continue;
                    }
                }
                a.run(|| format!("push number {n}"), h, || tree.push(&d))?.map_err(|e| format!("push: {:?}", e))?;
                acc.step(1);
                if s == 1 {
                    a.run(|| format!("root of {n} leaves"), h, || tree.root())?;
                    a.run(|| format!("prove of {n} leaves"), h, || drop(tree.prove(n / 3)))?;
                    a.run(|| format!("refused prove of {n} leaves"), h, || drop(tree.prove(n)))?;
                }
                if s == 2 {
                    a.drop("before a load", tree)?;
                    let k = if n % 1000 == 0 { n / 2 } else { n };
                    a.run(|| format!("load of {k} leaves"), h, || drop(BTree::load(st.clone(), k)))?;
                    a.run(|| format!("refused load of {n} leaves"), h, || drop(BTree::load(st.clone(), 3 * n + 1)))?;
                    tree =
                        a.run(|| format!("load of {n} leaves"), h, || BTree::load(st.clone(), n))?.map_err(|e| format!("load: {:?}", e))?;
                }
                if n % 16 == 0 {
                    acc.state(&(s, n));
                }
            }
            a.note(acc, "binary");
            acc.trace(1);
            a.drop("at the end", tree)
        },
        |s| {
            ["pushes only", "every query after each push", "reloaded after each push", "a failing push before each push"][s as usize].into()
        },
    ));
    let counts = crate::p_binary::structured_counts(t);
    let c2 = counts.clone();
    v.push(Space::new(
        format!("binary: {} structured leaf counts over 63 bits", counts.len()),
        counts.len() as u64,
        move |i, acc| {
            let n = counts[i as usize];
            let a = Account::new();
            let h = height(n);
            let st = Virt::new(n);
            let mut tree = a
                .run(|| format!("load({n})"), h, || binary::MerkleTree::<BTab, Virt>::load(st.clone(), n))?
                .map_err(|e| format!("load({n}): {:?}", e))?;
            a.run(|| format!("root of {n}"), h, || tree.root())?;
            for i in crate::p_binary::structured_indices(n).into_iter().step_by(3) {
                a.run(|| format!("prove({i}) of {n}"), h, || drop(tree.prove(i)))?;
                acc.step(1);
            }
            for j in 0..3u64 {
                if n + j + 1 >= 1 << 63 {
                    break;
                }
                a.run(|| format!("push {j} onto {n}"), h, || tree.push(&[j as u8; 100]))?.map_err(|e| format!("push: {:?}", e))?;
                acc.step(1);
            }
            acc.state(&("virtual", n));
            acc.trace(1);
            a.drop("at the end", tree)
        },
        move |i| format!("{} leaves", c2[i as usize]),
    ));
    let max = t.pick(140_000u64, 1_100_000);
    v.push(Space::new(
        format!("sum: growing to {max} leaves; pushed only, queried, failing"),
        3,
        move |s, acc| {
            let a = Account::new();
            let mut tree = p_sum::new_tree();
            for n in 1..=max {
                acc.beat();
                let h = height(n);
                let d = n.to_be_bytes();
                if s == 2 {
                    (tree.arm)(1 + n % 5, [Mode::Before, Mode::After, Mode::Down][n as usize % 3]);
                    let done = a.run(|| format!("a failing push number {n}"), h, || (tree.push)(1, &d).is_ok())?;
                    (tree.disarm)();
                    if done {
                        continue;
                    }
                }
                a.run(|| format!("push number {n}"), h, || (tree.push)(1, &d))?.map_err(|e| format!("push: {:?}", e))?;
                if s == 1 {
                    a.run(|| format!("root of {n} leaves"), h, || (tree.root)())?.map_err(|e| format!("root: {:?}", e))?;
                }
                acc.step(1);
                if n % 16 == 0 {
                    acc.state(&("sum", s, n));
                }
            }
            a.note(acc, "sum");
            acc.trace(1);
            Ok(())
        },
        |s| ["pushes only", "root after each push", "a failing push before each push"][s as usize].into(),
    ));
    let fams = p_sparse::families(t);
    let names: Vec<String> = fams.iter().map(|f| format!("{} {}", f.1, f.0)).collect();
    let n2 = fams.len() as u64;
    v.push(Space::new(
        "sparse: insertions, overwrites, deletions, failures and loads in large trees",
        n2 * 2,
        move |i, acc| {
            let (name, n, key) = fams[(i % n2) as usize];
            let failing = i >= n2;
            let a = Account::new();
            let st = Mem::<STab>::new();
            let mut tree = a.run(|| "new".into(), 1, || STree::new(st.clone()))?;
            let mut keys = BTreeSet::new();
            let at = |j: u32| key(((j as u64 * 40503 + 1) % n as u64) as u32);
            let mut c = 0u64;
            let mut go = |tree: &mut STree, k: &H, d: &[u8]| -> Res {
                acc.beat();
                c += 1;
                let before = depth_near(&keys, k);
                if d.is_empty() {
                    keys.remove(k);
                } else {
                    keys.insert(*k);
                }
                let depth = before.max(depth_near(&keys, k));
                if failing {
                    st.arm(1 + c % 7, [Mode::Before, Mode::Down][c as usize % 2]);
                    a.run(|| format!("{name}: a failing operation {c} (path of {depth})"), depth, || drop(tree.update(k, d)))?;
                    st.disarm();
                }
                a.run(|| format!("{name}: operation {c} (path of {depth})"), depth, || tree.update(k, d))?
                    .map_err(|e| format!("{name}: operation {c}: {:?}", e))?;
                acc.step(1);
                if c % 32 == 0 {
                    acc.state(&(name, failing, c));
                }
                Ok(())
            };
            for j in 0..n {
                go(&mut tree, &key(j), &j.to_be_bytes())?;
            }
            for j in (0..n).step_by(3) {
                go(&mut tree, &at(j), &[7; 50])?;
            }
            for j in 0..n.min(3000) {
                go(&mut tree, &flip(&at(j), 100), b"")?;
            }
            for j in 0..n.min(20_000) {
                go(&mut tree, &at(j), b"")?;
            }
            for j in 0..n.min(2000) {
                let root = tree.root();
                a.drop("before a load", tree)?;
                tree = a.run(|| "load".into(), 1, || STree::load(st.clone(), &root))?.map_err(|e| format!("load: {:?}", e))?;
                go(&mut tree, &key(j), b"again")?;
            }
            a.note(acc, "sparse");
            acc.trace(1);
            a.drop("at the end", tree)
        },
        move |i| format!("{}{}", names[(i % n2) as usize], if i >= n2 { ", a failing attempt before each operation" } else { "" }),
    ));
    v.push(Space::new(
        "sparse: keys diverging at each of 256 depths x 5 patterns",
        256 * 5,
        |i, acc| {
            let base = p_sparse::base((i % 5) as usize);
            let d = (i / 5) as usize;
            let st = Mem::<STab>::new();
            let a = Account::new();
            let mut tree = a.run(|| "new".into(), 1, || STree::new(st.clone()))?;
            let mut keys = BTreeSet::new();
            let (b, c) = (flip(&base, d), flip(&flip(&base, d), 255 - d));
            for (k, v) in [
                (&base, "1"),
                (&b, "2"),
                (&b, "3"),
                (&c, "4"),
                (&base, ""),
                (&base, "5"),
                (&c, ""),
                (&b, ""),
                (&c, "1"),
                (&base, ""),
                (&c, ""),
            ] {
                let before = depth_near(&keys, k);
                if v.is_empty() {
                    keys.remove(k);
                } else {
                    keys.insert(*k);
                }
                let depth = before.max(depth_near(&keys, k));
                a.run(|| format!("update {} to {v:?} (path of {depth})", hx(k)), depth, || tree.update(k, v.as_bytes()))?
                    .map_err(|e| format!("update: {:?}", e))?;
                acc.step(1);
            }
            a.note(acc, "deep sparse");
            acc.trace(1);
            acc.state(&("depth", i));
            a.drop("at the end", tree)
        },
        |i| format!("pattern {}, depth {}", i % 5, i / 5),
    ));
    // leaf and value lengths: contents are hashed, not kept
    let lens = p_binary::lengths(t);
    let l2 = lens.clone();
    v.push(Space::new(
        "contents of every length, in all trees",
        lens.len() as u64,
        move |i, acc| {
            let n = lens[i as usize];
            let d = vec![7u8; n];
            let st = p_binary::Store::new();
            let (a, b, c) = (Account::new(), Account::new(), Account::new());
            let mut bt = a.run(|| "new".into(), 1, || BTree::new(st))?;
            let mut st = b.run(|| "new".into(), 1, || STree::new(Mem::new()))?;
            let mut su = p_sum::new_tree();
            for j in 0..6u8 {
                a.run(|| format!("push of {n} bytes"), 3, || bt.push(&d))?.map_err(|e| format!("{:?}", e))?;
                b.run(|| format!("update with {n} bytes"), 4, || st.update(&[j << 5; 32], &d))?.map_err(|e| format!("{:?}", e))?;
                c.run(|| format!("push of {n} bytes"), 3, || (su.push)(1, &d))?.map_err(|e| format!("{:?}", e))?;
                acc.step(3);
            }
            acc.trace(1);
            acc.state(&("length", n));
            a.note(acc, "lengths");
            a.drop("at the end", bt)?;
            b.drop("at the end", st)
        },
        move |i| format!("{} bytes", l2[i as usize]),
    ));
    // many short-lived trees
    let rounds = t.pick(40_000u64, 400_000);
    v.push(Space::new(
        format!("{rounds} trees made, used and dropped, one after another"),
        4,
        move |s, acc| {
            let a = Account::new();
            for r in 0..rounds {
                acc.beat();
                let d = r.to_be_bytes();
                match s {
                    0 => a.run(
                        || format!("tree {r}"),
                        4,
                        || {
                            let mut t = binary::in_memory::MerkleTree::new();
                            t.push(&d);
                            t.push(&d);
                            t.push(b"");
                            t.root();
                            drop(t.prove(r % 4));
                        },
                    )?,
                    1 => a.run(
                        || format!("tree {r}"),
                        4,
                        || {
                            let mut t = sparse::in_memory::MerkleTree::new();
                            t.update(&[(r % 251) as u8; 32], &d);
                            t.update(&[0x80; 32], &d);
                            t.delete(&[(r % 251) as u8; 32]);
                            t.root();
                        },
                    )?,
                    2 => a.run(
                        || format!("tree {r}"),
                        4,
                        || {
                            let mut t = BTree::new(p_binary::Store::new());
                            for _ in 0..r % 8 {
                                let _ = t.push(&d);
                            }
                            drop(t.prove(r % 7));
                        },
                    )?,
                    _ => a.run(
                        || format!("tree {r}"),
                        4,
                        || {
                            let st = Mem::<STab>::new();
                            st.arm(1 + r % 9, Mode::Before);
                            let mut t = STree::new(st);
                            let _ = t.update(&[1; 32], &d);
                            let _ = t.update(&[(r % 251) as u8; 32], &d);
                            let _ = t.delete(&[1; 32]);
                        },
                    )?,
                };
                acc.step(1);
                if r % 16 == 0 {
                    acc.state(&("short", s, r));
                }
            }
            acc.trace(1);
            Ok(())
        },
        |s| ["binary in memory", "sparse in memory", "binary", "sparse, failing"][s as usize].into(),
    ));
    // many questions to one tree
    let asked = t.pick(60_000u64, 1_000_000);
    let sizes: Vec<u64> = vec![0, 1, 2, 3, 7, 8, 100, 1023];
    let ns = sizes.len() as u64;
    v.push(Space::new(
        format!("{asked} questions to one tree"),
        ns * 6,
        move |i, acc| {
            let (n, kind) = (sizes[(i % ns) as usize], i / ns);
            let a = Account::new();
            let h = height(n) + 1;
            let d = |j: u64| j.to_be_bytes();
            let key = |j: u64| value_digest(&d(j));
            // the trees' own storages are made before the account is opened, and do not grow
            let mut ask: Box<dyn FnMut(u64)> = match kind {
                0 => {
                    let mut t = binary::in_memory::MerkleTree::new();
                    (0..n).for_each(|j| t.push(&d(j)));
                    Box::new(move |j| match j % 3 {
                        0 => drop(t.root()),
                        _ => drop(t.prove(j % (n + 2))),
                    })
                }
                1 => {
                    let st = p_binary::Store::new();
                    let mut t = BTree::new(st.clone());
                    (0..n).for_each(|j| drop(t.push(&d(j))));
                    Box::new(move |j| match j % 5 {
                        0 => drop(t.root()),
                        1 => drop(t.prove(u64::MAX - j)),
                        2 => drop(BTree::load(st.clone(), j % (n + 5))),
                        3 => {
                            // a failing proof
                            st.arm(1 + j % 7, Mode::Before);
                            drop(t.prove(j % (n + 1)));
                            st.disarm();
                        }
                        _ => drop(t.prove(j % (n + 1))),
                    })
                }
                2 => {
                    let mut t = sparse::in_memory::MerkleTree::new();
                    (0..n).for_each(|j| t.update(&key(j), &d(j)));
                    Box::new(move |j| match j % 3 {
                        0 => drop(t.root()),
                        // no-ops: the same again, and nothing for a key that is not there
                        1 if n > 0 => t.update(&key(j % n), &d(j % n)),
                        1 => {}
                        _ => t.delete(&key(n + 1 + j)),
                    })
                }
                3 => {
                    let st = Mem::<STab>::new();
                    let mut t = STree::new(st.clone());
                    (0..n).for_each(|j| drop(t.update(&key(j), &d(j))));
                    Box::new(move |j| match j % 5 {
                        0 => drop(STree::load(st.clone(), &t.root())),
                        1 if n > 0 => drop(t.update(&key(j % n), &d(j % n))),
                        2 => drop(STree::load(st.clone(), &key(j))),
                        3 => {
                            st.arm(1 + j % 9, Mode::Before);
                            drop(t.delete(&key(n + 1 + j)));
                            st.disarm();
                        }
                        _ => drop(t.update(&key(n + 1 + j), b"")),
                    })
                }
                4 => {
                    let mut t = p_sum::new_tree();
                    (0..n).for_each(|j| drop((t.push)(j, &d(j))));
                    Box::new(move |j| match j % 2 {
                        0 => drop((t.root)()),
                        _ => {
                            (t.arm)(1 + j % 5, Mode::Before);
                            drop((t.root)());
                            (t.disarm)();
                        }
                    })
                }
                _ => {
                    let n = u64::MAX >> (1 + n % 40);
                    let t = binary::MerkleTree::<BTab, Virt>::load(Virt::new(n), n).map_err(|e| format!("load({n}): {:?}", e))?;
                    Box::new(move |j| match j % 2 {
                        0 => drop(t.root()),
                        _ => drop(t.prove(n / (j + 1))),
                    })
                }
            };
            let h = if kind == 5 { 64 } else { h };
            // what the first questions may set up
            (0..20).for_each(&mut ask);
            for j in 0..asked {
                acc.beat();
                a.run(|| format!("question {j} to a tree of {n}"), h, || ask(j))?;
                acc.step(1);
            }
            acc.state(&("asked", n, kind));
            acc.trace(1);
            a.note(acc, "questions");
            Ok(())
        },
        move |i| format!("{asked} questions, kind of tree {}", i / ns),
    ));
    v
}
