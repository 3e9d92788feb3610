//! C01, C02, C06-C10, C12, C13, C15, C17, C20, C21: very long histories. Every short cycle of
//! operations is repeated until a tree has gone through more of them than fit in 16 bits, so code
//! that counts, collects or ages something per operation is taken past where that goes wrong.
use crate::engine::*;
use crate::p_binary;
use crate::p_sparse::{settle, Live, Op};
use crate::p_sum;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::{binary, sparse};

/// What an operation of a kind does: (number of the operation, number of the step)
type Act = Box<dyn FnMut(usize, u64) -> Res>;

fn cycles(
    what: &'static str,
    names: &'static [&'static str],
    t: Tier,
    make: impl Fn() -> Result<Act, String> + Sync + Send + 'static,
) -> Space<'static> {
    let (max, steps) = (t.pick(2, 3), t.pick(66_000u64, 140_000));
    let b = names.len() as u64;
    // all sequences of max operations; shorter ones are contained (aa.. is a..)
    Space::new(
        format!("{what}: every cycle of {max} of {b} operations, repeated for {steps} operations"),
        b.pow(max),
        move |i, acc| {
            let d = digits(i, b, max as usize);
            let mut act = make()?;
            for s in 0..steps {
                let a = d[(s % max as u64) as usize];
                if s % 64 == 0 {
                    acc.beat();
                }
                let r = guard(|| act(a, s)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                r.map_err(|e| format!("operation {s}, {}: {e}", names[a]))?;
            }
            acc.step(steps);
            acc.trace(1);
            acc.state(&(what, i));
            Ok(())
        },
        move |i| digits(i, b, max as usize).iter().map(|a| names[*a]).collect::<Vec<_>>().join(" and ") + ", repeated",
    )
}
/// One operation, another one so often that a counter comes round, and a third. The first and the
/// third are given the same number, so they ask for the same thing.
fn wraps(
    what: &'static str,
    names: &'static [&'static str],
    t: Tier,
    make: impl Fn() -> Result<Act, String> + Sync + Send + 'static,
) -> Space<'static> {
    let long = t.pick(vec![65_535, 65_536], (65_532..65_540).collect());
    let times: Vec<u64> = long.iter().cloned().chain(t.pick(252..260, 240..280)).collect();
    let b = names.len() as u64;
    Space::new(
        format!("{what}: every first and last of {b} operations, with every one in between repeated {times:?} times"),
        b.pow(3) * times.len() as u64,
        move |i, acc| {
            // the long ones first
            let (n, d) = (times[(i / b.pow(3)) as usize], digits(i % b.pow(3), b, 3));
            let mut act = make()?;
            let (first, last) = (std::iter::once((d[0], 0)), std::iter::once((d[2], 0)));
            let between = (1..=n).map(|s| (d[1], s));
            for (at, (a, s)) in first.chain(between).chain(last).enumerate() {
                if s % 64 == 0 {
                    acc.beat();
                }
                let r = guard(|| act(a, s)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                r.map_err(|e| format!("operation {at}, {}: {e}", names[a]))?;
            }
            acc.step(n + 2);
            acc.trace(1);
            acc.state(&(what, i));
            Ok(())
        },
        move |i| {
            let (n, d) = (i / b.pow(3), digits(i % b.pow(3), b, 3));
            format!("{}, {} repeated (length {n}), {}", names[d[0]], names[d[1]], names[d[2]])
        },
    )
}
fn long(
    what: &'static str,
    names: &'static [&'static str],
    t: Tier,
    make: impl Fn() -> Result<Act, String> + Sync + Send + Copy + 'static,
) -> Vec<Space<'static>> {
    vec![cycles(what, names, t, make), wraps(what, names, t, make)]
}
fn number(n: u64) -> H {
    sha(&[b"number", &n.to_be_bytes()])
}
const A: H = [0x17; 32];
fn b() -> H {
    flip(&A, 2)
}
fn c() -> H {
    flip(&A, 9)
}
/// two entries
fn small() -> Result<Live, String> {
    let mut l = Live::new();
    l.apply(&Op::Up(b(), b"b".to_vec()))?;
    l.apply(&Op::Up(A, b"a".to_vec()))?;
    Ok(l)
}
fn after(l: &Live, s: u64) -> Res {
    l.check()?;
    if s % 1024 < 4 {
        l.stored_all(&l.model)?;
    }
    Ok(())
}
fn sparse_op(l: &mut Live, name: usize, s: u64) -> Res {
    match name {
        0 => l.apply(&Op::Up(A, b"a".to_vec())),
        1 => l.apply(&Op::Del(A)),
        2 => l.apply(&Op::Up(A, b"another value".to_vec())),
        3 => l.apply(&Op::Up(b(), s.to_be_bytes().to_vec())),
        4 => l.apply(&Op::Del(number(s))),
        5 => {
            l.apply(&Op::Up(number(s), b"n".to_vec()))?;
            l.check()?;
            l.apply(&Op::Del(number(s)))
        }
        6 => l.apply(&Op::Reload),
        _ => l.apply(&Op::Up(number(s % 24), vec![s as u8, 1])),
    }?;
    after(l, s)
}
const SPARSE: &[&str] = &[
    "an update",
    "a deletion",
    "an overwriting update",
    "an update with a new value",
    "the deletion of an absent key",
    "a new key in and out",
    "a reload",
    "an update of one of 24 keys",
];
pub fn c01_repeat(t: Tier) -> Vec<Space<'static>> {
    long(
        "sparse",
        &[
            "an update",
            "a deletion",
            "an overwriting update",
            "an update with a new value",
            "the deletion of an absent key",
            "a new key in and out",
        ],
        t,
        || {
            let mut l = small()?;
            Ok(Box::new(move |a, s| sparse_op(&mut l, a, s)))
        },
    )
}
pub fn c02_repeat(t: Tier) -> Vec<Space<'static>> {
    long("sparse", SPARSE, t, || {
        let mut l = small()?;
        Ok(Box::new(move |a, s| sparse_op(&mut l, a, s)))
    })
}
pub fn c06_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &[
        "an update",
        "a deletion",
        "an overwriting update",
        "a reload",
        "a failing update",
        "a failing deletion",
        "a failing update of a third key",
        "a failing load",
    ];
    long("sparse", names, t, || {
        let mut l = small()?;
        let mut fails = 0u64;
        Ok(Box::new(move |a, s| {
            let op = match a {
                0..=2 => return sparse_op(&mut l, a, s),
                3 => return sparse_op(&mut l, 6, s),
                4 => Op::Up(A, s.to_be_bytes().to_vec()),
                5 => Op::Del(b()),
                6 => Op::Up(c(), b"c".to_vec()),
                _ => Op::Reload,
            };
            fails += 1;
            let (at, mode) = (fails / 3 % 9 + 1, [Mode::Before, Mode::After, Mode::Down][(fails % 3) as usize]);
            let before = l.model.clone();
            let mut after = before.clone();
            crate::p_sparse::model_apply(&mut after, &op);
            l.st.arm(at, mode);
            let r = l.run(&op);
            match (r, l.st.disarm()) {
                (Ok(()), true) => return Err(format!("call {at} failed ({mode:?}), but success was reported")),
                (Err(e), hit) if !hit || !carries(&e, at) => return Err(format!("call {at} failing ({mode:?}): reported {e}")),
                _ => {}
            }
            l.model = settle(&l, &before, &after).map_err(|e| format!("call {at} failing ({mode:?}): {e}"))?;
            Ok(())
        }))
    })
}
pub fn c07_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &[
        "an update",
        "a deletion",
        "an overwriting update",
        "a reload",
        "an update with a node lost",
        "a deletion with a node lost",
        "an update of a third key with a node lost",
        "an update with a node undecodable",
    ];
    long("sparse", names, t, || {
        let mut l = small()?;
        let mut hurt = 0u64;
        Ok(Box::new(move |a, s| {
            let op = match a {
                0..=2 => return sparse_op(&mut l, a, s),
                3 => return sparse_op(&mut l, 6, s),
                4 | 7 => Op::Up(A, s.to_be_bytes().to_vec()),
                5 => Op::Del(b()),
                _ => Op::Up(c(), b"c".to_vec()),
            };
            hurt += 1;
            let nodes = sp_nodes(&l.model);
            if nodes.is_empty() {
                return l.apply(&op);
            }
            let (k, p) = &nodes[hurt as usize % nodes.len()];
            match a {
                7 => l.st.put(k, (p.0, 2 + (hurt % 254) as u8, p.2, p.3)),
                _ => _ = l.st.lose(k),
            }
            let r0 = l.t().root();
            let r = l.run(&op);
            let mut after = l.model.clone();
            crate::p_sparse::model_apply(&mut after, &op);
            let want = if r.is_ok() { sp_root(&after) } else { r0 };
            if l.t().root() != want {
                return Err(format!("node {} damaged: {:?}, but root {} instead of {}", hx(k), r, hx(&l.t().root()), hx(&want)));
            }
            // the node is put back if it is needed again
            if r.is_err() || sp_nodes(&after).iter().any(|n| n.0 == *k) {
                l.st.put(k, *p);
            }
            if r.is_ok() {
                l.model = after;
            }
            l.check()?;
            l.stored_all(&l.model)
        }))
    })
}

// ------------------------------------------------------------------ binary

struct Bin {
    st: p_binary::Store,
    tree: p_binary::Tree,
    m: BinModel,
    fails: u64,
}
impl Bin {
    fn new(n: u64) -> Result<Bin, String> {
        let st = p_binary::Store::new();
        let mut b = Bin { tree: p_binary::Tree::new(st.clone()), st, m: BinModel::new(), fails: 0 };
        for i in 0..n {
            b.push(&p_binary::data(1, i))?;
        }
        Ok(b)
    }
    fn push(&mut self, d: &[u8]) -> Res {
        p_binary::push(&mut self.tree, d)?;
        self.m.push(d);
        Ok(())
    }
    fn root(&self) -> Res {
        p_binary::same_root(&self.tree, &self.m.root())
    }
    fn prove(&self, i: u64) -> Res {
        p_binary::same_proof(&self.tree, i, self.m.len(), &self.m.root(), &self.m.proof(i))
    }
    fn load(&mut self, n: u64) -> Res {
        self.tree = p_binary::Tree::load(self.st.clone(), n).map_err(|e| format!("load({n}) failed: {e:?}"))?;
        self.m.truncate(n);
        Ok(())
    }
    /// op fails at one of its first calls; 0 push, 1 prove, 2 load
    fn failing(&mut self, op: usize, s: u64) -> Res {
        self.fails += 1;
        let (at, mode) = (self.fails / 3 % 4 + 1, [Mode::Before, Mode::After, Mode::Down][(self.fails % 3) as usize]);
        let n = self.m.len();
        let d = s.to_be_bytes();
        self.st.arm(at, mode);
        let r = match op {
            0 => self.tree.push(&d).map_err(|e| format!("{e:?}")),
            1 => self.tree.prove(s % n).map(|_| ()).map_err(|e| format!("{e:?}")),
            _ => p_binary::Tree::load(self.st.clone(), n).map(|t| self.tree = t).map_err(|e| format!("{e:?}")),
        };
        match (r, self.st.disarm()) {
            (Ok(()), true) => return Err(format!("call {at} failed ({mode:?}), but success was reported")),
            (Err(e), hit) if !hit || !carries(&e, at) => return Err(format!("call {at} failing ({mode:?}): reported {e}")),
            (Ok(()), _) if op == 0 => self.m.push(&d),
            _ => {}
        }
        self.root()
    }
    fn op(&mut self, a: usize, s: u64) -> Res {
        match a {
            0 => self.push(&s.to_be_bytes())?,
            1 => self.prove(3)?,
            2 => self.prove(self.m.len() - 1)?,
            3 => self.prove(s * 7 % self.m.len())?,
            4 => p_binary::invalid(&self.tree, self.m.len() + s % 5, self.m.len())?,
            5 => self.load(self.m.len())?,
            6 => self.load(5)?,
            7 => {
                if let Ok(t) = p_binary::Tree::load(self.st.clone(), 1 << (20 + s % 44)) {
                    return Err(format!("load of a count never stored succeeded with root {}", hx(&t.root())));
                }
            }
            8 => {
                self.load(self.m.len() / 2 + 3)?;
                self.push(b"other")?
            }
            9..=11 => self.failing(a - 9, s)?,
            _ => {
                // an entry lost, a question, the entry back
                let held = self.m.stored(self.m.len().min(64));
                let (k, h) = held[(s as usize * 3) % held.len()];
                self.st.lose(&k);
                let i = s % self.m.len().min(64);
                match self.tree.prove(i) {
                    Ok(p) if p != (self.m.root(), self.m.proof(i)) => return Err(format!("entry {k} lost: prove({i}) is wrong")),
                    Err(e) if !format!("{e:?}").contains("LoadError") => return Err(format!("entry {k} lost: prove({i}) reported {e:?}")),
                    _ => {}
                }
                self.st.put(&k, (k, h));
            }
        }
        self.root()
    }
}
fn bin(t: Tier, names: &'static [&'static str], ops: &'static [usize]) -> Vec<Space<'static>> {
    long("binary", names, t, move || {
        let mut b = Bin::new(7)?;
        Ok(Box::new(move |a, s| b.op(ops[a], s)))
    })
}
pub fn c09_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &["push", "a proof of leaf 3", "a proof of the last leaf", "a proof of any leaf", "an invalid index", "a reload"];
    bin(t, names, &[0, 1, 2, 3, 4, 5])
}
pub fn c10_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &[
        "push",
        "a reload",
        "a rollback to 5 leaves",
        "a load of a count never stored",
        "a rollback by half and a push",
        "a proof of any leaf",
    ];
    bin(t, names, &[0, 5, 6, 7, 8, 3])
}
pub fn c12_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &["push", "a proof of any leaf", "a rollback to 5 leaves", "a failing push", "a failing proof", "a failing load"];
    bin(t, names, &[0, 3, 6, 9, 10, 11])
}
pub fn c13_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &["push", "a proof of any leaf", "a rollback to 5 leaves", "a proof with an entry lost"];
    bin(t, names, &[0, 3, 6, 12])
}

// ------------------------------------------------------------------ sum

fn summing(t: Tier, names: &'static [&'static str]) -> Vec<Space<'static>> {
    long("sum", names, t, || {
        let mut tree = p_sum::new_tree();
        let mut m = SumModel::default();
        let mut fails = 0u64;
        Ok(Box::new(move |a, s| {
            let d = s.to_be_bytes();
            if a > 2 {
                fails += 1;
                let (at, mode) = (fails / 3 % 4 + 1, [Mode::Before, Mode::After, Mode::Down][(fails % 3) as usize]);
                (tree.arm)(at, mode);
                let r = match a {
                    3 => (tree.push)(s, &d).map(|_| None),
                    _ => (tree.root)().map(Some),
                };
                match (r, (tree.disarm)()) {
                    (Ok(_), true) => return Err(format!("call {at} failed ({mode:?}), but success was reported")),
                    (Err(e), hit) if !hit || e != Fault(at) => return Err(format!("call {at} failing ({mode:?}): reported {e:?}")),
                    (Ok(None), _) => m.push(s, &d),
                    (Ok(Some((f, h))), _) if (f as u128, h) != m.root() => return Err("the root is wrong".into()),
                    _ => {}
                }
                return Ok(());
            }
            if a == 0 || a == 1 {
                let f = if a == 0 { s } else { 0 };
                (tree.push)(f, &d).map_err(|e| format!("failed on a working store: {e:?}"))?;
                m.push(f, &d);
            }
            if a == 2 || s % 64 == 0 {
                p_sum::same_pair(&mut tree, &m)?;
            }
            Ok(())
        }))
    })
}
pub fn c15_repeat(t: Tier) -> Vec<Space<'static>> {
    summing(t, &["push", "a push without fee", "a root"])
}
pub fn c17_repeat(t: Tier) -> Vec<Space<'static>> {
    summing(t, &["push", "a push without fee", "a root", "a failing push", "a failing root"])
}

// ------------------------------------------------------------------ the storage map

pub fn c20_repeat(t: Tier) -> Vec<Space<'static>> {
    use crate::p_common::TPlain;
    use fuel_merkle::common::StorageMap;
    use fuel_merkle::storage::{StorageInspect, StorageMutate};
    let names = &[
        "an insertion",
        "an overwriting insertion",
        "a removal",
        "the removal of the oldest",
        "the removal of an absent key",
        "a reading",
        "a reading of an absent key",
        "another map",
    ];
    long("map", names, t, || {
        let mut m = StorageMap::<TPlain>::new();
        let mut r = std::collections::BTreeMap::new();
        for i in 0..3u64 {
            StorageMutate::insert(&mut m, &i, &(i, ZERO)).unwrap();
            r.insert(i, (i, ZERO));
        }
        let mut n = 3u64;
        Ok(Box::new(move |a, s| {
            let (got, want) = match a {
                0 => {
                    n += 1;
                    (StorageMutate::insert(&mut m, &n, &(n, ZERO)).unwrap(), r.insert(n, (n, ZERO)))
                }
                1 => (StorageMutate::insert(&mut m, &1, &(s, ZERO)).unwrap(), r.insert(1, (s, ZERO))),
                2 => (StorageMutate::remove(&mut m, &1).unwrap(), r.remove(&1)),
                3 => {
                    let k = r.keys().next().copied().unwrap_or(0);
                    (StorageMutate::remove(&mut m, &k).unwrap(), r.remove(&k))
                }
                4 => (StorageMutate::remove(&mut m, &(1 << 40 | s)).unwrap(), None),
                5 => (StorageInspect::get(&m, &1).unwrap().map(|c| c.into_owned()), r.get(&1).copied()),
                6 => (StorageInspect::get(&m, &(1 << 40 | s)).unwrap().map(|c| c.into_owned()), None),
                _ => {
                    let mut o = StorageMap::<TPlain>::new();
                    StorageMutate::insert(&mut o, &1, &(s, ZERO)).unwrap();
                    (StorageInspect::get(&o, &1).unwrap().map(|c| c.into_owned()), Some((s, ZERO)))
                }
            };
            let keys = [0, 1, 2, n];
            let same = |k: &u64| StorageInspect::get(&m, k).unwrap().map(|c| c.into_owned()).as_ref() == r.get(k);
            match got == want && keys.iter().all(same) {
                true => Ok(()),
                false => Err(format!("returned {:?}, expected {:?}", got.map(|x| x.0), want.map(|x| x.0))),
            }
        }))
    })
}

// ------------------------------------------------------------------ in memory

pub fn c21_repeat(t: Tier) -> Vec<Space<'static>> {
    let names = &["push", "a root", "a proof of leaf 3", "a proof of any leaf", "an invalid index"];
    let mut all = long("binary, in memory", names, t, || {
        let mut tree = binary::in_memory::MerkleTree::new();
        let mut m = BinModel::new();
        for i in 0..5u64 {
            tree.push(&i.to_be_bytes());
            m.push(&i.to_be_bytes());
        }
        Ok(Box::new(move |a, s| {
            let n = m.len();
            let i = match a {
                0 => {
                    tree.push(&s.to_be_bytes());
                    m.push(&s.to_be_bytes());
                    return Ok(());
                }
                1 => {
                    return match tree.root() == m.root() {
                        true => Ok(()),
                        false => Err("the root is wrong".into()),
                    }
                }
                2 => 3,
                3 => s * 7 % n,
                _ => n + s % 5,
            };
            let want = (i < n).then(|| (m.root(), m.proof(i)));
            match tree.prove(i) == want {
                true => Ok(()),
                false => Err(format!("the answer for index {i} of {n} leaves is wrong")),
            }
        }))
    });
    let names = &[
        "an update",
        "a deletion",
        "an overwriting update",
        "an update with a new value",
        "the deletion of an absent key",
        "a new key in and out",
    ];
    all.extend(long("sparse, in memory", names, t, || {
        let mut tree = sparse::in_memory::MerkleTree::new();
        let mut m = SMap::new();
        tree.update(&b(), b"b");
        m.insert(b(), value_digest(b"b"));
        Ok(Box::new(move |a, s| {
            match a {
                0 | 2 | 3 => {
                    let v = [b"a".to_vec(), vec![], b"another value".to_vec(), s.to_be_bytes().to_vec()][a].clone();
                    tree.update(&A, &v);
                    m.insert(A, value_digest(&v));
                }
                1 => {
                    tree.delete(&A);
                    m.remove(&A);
                }
                4 => tree.delete(&number(s)),
                _ => {
                    tree.update(&number(s), b"n");
                    let mut with = m.clone();
                    with.insert(number(s), value_digest(b"n"));
                    if tree.root() != sp_root(&with) {
                        return Err("the root with the new key is wrong".into());
                    }
                    tree.delete(&number(s));
                }
            }
            match tree.root() == sp_root(&m) {
                true => Ok(()),
                false => Err("the root is wrong".into()),
            }
        }))
    }));
    all
}
