//! C01-C07: the sparse Merkle tree.
use crate::engine::*;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::sparse;
use std::collections::{HashMap, VecDeque};

pub type Store = Mem<STab>;
pub type Tree = sparse::MerkleTree<STab, Store>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Up(H, Vec<u8>),
    Del(H),
    Reload,
}
pub fn show(op: &Op) -> String {
    match op {
        Op::Up(k, v) if v.len() > 24 => format!("update({}, {} bytes)", hx(k), v.len()),
        Op::Up(k, v) => format!("update({}, 0x{})", hx(k), hex(v)),
        Op::Del(k) => format!("delete({})", hx(k)),
        Op::Reload => "reload".into(),
    }
}
pub fn shows(ops: &[Op]) -> String {
    ops.iter().map(show).collect::<Vec<_>>().join("; ")
}

pub fn model_apply(m: &mut SMap, op: &Op) {
    match op {
        Op::Up(k, v) if !v.is_empty() => {
            m.insert(*k, value_digest(v));
        }
        Op::Up(k, _) | Op::Del(k) => {
            m.remove(k);
        }
        Op::Reload => {}
    }
}
pub fn content_hash(k: &H, v: &Prim) -> u64 {
    fp(&(k, v))
}

pub struct Live {
    pub st: Store,
    pub tree: Option<Tree>,
    pub model: SMap,
}
pub fn e2s<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
impl Live {
    pub fn new() -> Self {
        let st = Store::fingerprinted(content_hash);
        Live { tree: Some(Tree::new(st.clone())), st, model: SMap::new() }
    }
    pub fn t(&self) -> &Tree {
        self.tree.as_ref().unwrap()
    }
    /// Run the operation on the real tree only; Err is the Debug text of the error.
    pub fn run(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Up(k, v) => self.tree.as_mut().unwrap().update(k, v).map_err(e2s),
            Op::Del(k) => self.tree.as_mut().unwrap().delete(k).map_err(e2s),
            Op::Reload => {
                let root = self.t().root();
                self.tree = Some(Tree::load(self.st.clone(), &root).map_err(e2s)?);
                Ok(())
            }
        }
    }
    /// Run on tree and model, expecting success.
    pub fn apply(&mut self, op: &Op) -> Res {
        self.run(op).map_err(|e| format!("{} failed on a working store: {}", show(op), e))?;
        model_apply(&mut self.model, op);
        Ok(())
    }
    pub fn check(&self) -> Res {
        let (a, b) = (self.t().root(), sp_root(&self.model));
        if a != b {
            return Err(format!("root {} differs from the specified root {} of {} entries", hx(&a), hx(&b), self.model.len()));
        }
        Ok(())
    }
    pub fn state(&self) -> (H, u64) {
        (self.t().root(), self.st.sum())
    }
    /// the whole state: the tree's own memory and the store
    pub fn full(&self) -> u64 {
        fp(&(format!("{:?}", self.t()), self.st.sum()))
    }
    /// every node of the canonical tree of `m` is stored in its documented form
    pub fn stored_all(&self, m: &SMap) -> Res {
        for (h, p) in sp_nodes(m) {
            match self.st.peek(&h) {
                None => return Err(format!("node {} of height {} is not stored", hx(&h), p.0)),
                Some(q) if q != p => return Err(format!("node {} is stored as {:?}, expected {:?}", hx(&h), prim(&q), prim(&p))),
                _ => {}
            }
        }
        Ok(())
    }
    /// A copy with a store of its own, reloaded at the same root.
    pub fn fork(&self) -> Result<Live, String> {
        let st = self.st.fork();
        let tree = Tree::load(st.clone(), &self.t().root()).map_err(|e| format!("load at the current root: {:?}", e))?;
        Ok(Live { st, tree: Some(tree), model: self.model.clone() })
    }
    pub fn replay(ops: &[Op]) -> Result<Live, String> {
        let mut l = Live::new();
        for o in ops {
            l.apply(o)?;
        }
        Ok(l)
    }
}
fn prim(p: &Prim) -> (u32, u8, String, String) {
    (p.0, p.1, hx(&p.2), hx(&p.3))
}

// ------------------------------------------------------------------ alphabets

pub fn base(i: usize) -> H {
    match i {
        0 => [0u8; 32],
        1 => [0xff; 32],
        2 => [0xaa; 32],
        3 => [0x55; 32],
        _ => sha(&[b"base", &[i as u8]]),
    }
}
pub fn shapes() -> Vec<(&'static str, Vec<H>)> {
    let a = base(4);
    let top = |b: u8, lo: u8| {
        let mut k = [lo; 32];
        k[0] = b;
        k
    };
    vec![
        ("top", vec![top(0x00, 1), top(0x40, 2), top(0x80, 3), top(0xc0, 4)]),
        ("comb", vec![top(0x00, 1), top(0x80, 2), top(0xc0, 3), top(0xe0, 4)]),
        ("hashed", (0..4u8).map(|i| sha(&[&[0, 0, 0, i]])).collect()),
        ("byte", vec![a, flip(&a, 7), flip(&a, 8), flip(&a, 9)]),
        ("edge", vec![ZERO, [0xff; 32], flip(&ZERO, 255), flip(&ZERO, 0)]),
        ("deep", vec![a, flip(&a, 255), flip(&a, 254), flip(&a, 0)]),
        ("mid", vec![a, flip(&a, 128), flip(&a, 127), flip(&flip(&a, 128), 255)]),
        ("twins", vec![a, flip(&a, 255), flip(&a, 0), flip(&flip(&a, 0), 255)]),
    ]
}
pub fn is_deep(name: &str) -> bool {
    matches!(name, "deep" | "mid" | "twins" | "edge")
}
/// per key: update v0, update v1, delete (and optionally update with empty data)
pub fn alphabet(keys: &[H], vals: usize, empty: bool, reload: bool) -> Vec<Op> {
    let vs: [&[u8]; 3] = [b"a", b"second value, longer than one hash block of thirty-two bytes: 0123456789", b"\x00"];
    let mut v = vec![];
    for k in keys {
        for x in vs.iter().take(vals) {
            v.push(Op::Up(*k, x.to_vec()));
        }
        v.push(Op::Del(*k));
        if empty {
            v.push(Op::Up(*k, vec![]));
        }
    }
    if reload {
        v.push(Op::Reload);
    }
    v
}
pub fn seq_of(al: &[Op], i: u64, len: usize) -> (Vec<Op>, usize) {
    let d = digits(i, al.len() as u64, len);
    let f = first_visit(&d);
    (d.into_iter().map(|x| al[x].clone()).collect(), f)
}
/// sequences of every length 0..=max, in order of length
pub fn seq_upto(al: &[Op], mut i: u64, max: usize) -> Vec<Op> {
    let b = al.len() as u64;
    for len in 0..=max {
        let n = b.pow(len as u32);
        if i < n {
            return digits(i, b, len).into_iter().map(|x| al[x].clone()).collect();
        }
        i -= n;
    }
    unreachable!()
}
pub fn count_upto(b: u64, max: usize) -> u64 {
    (0..=max).map(|l| b.pow(l as u32)).sum()
}

/// All sequences of length `len` over `al`; `each` is called after every operation that is the
/// first visit of its prefix, with (live, ops so far, model before the last op).
pub fn seq_space<'a>(name: String, al: Vec<Op>, len: usize, each: impl Fn(&mut Live, &[Op], &SMap, &Acc) -> Res + Sync + 'a) -> Space<'a> {
    let total = (al.len() as u64).pow(len as u32);
    let al2 = al.clone();
    Space::new(
        name,
        total,
        move |i, acc| {
            let (ops, from) = seq_of(&al, i, len);
            let mut l = Live::new();
            for (p, op) in ops.iter().enumerate() {
                let before = if p >= from { Some(l.model.clone()) } else { None };
                l.apply(op).map_err(|e| format!("after [{}]: {}", shows(&ops[..p]), e))?;
                if let Some(before) = before {
                    acc.step(1);
                    acc.state(&l.state());
                    each(&mut l, &ops[..=p], &before, acc).map_err(|e| format!("after [{}]: {}", shows(&ops[..=p]), e))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| shows(&seq_of(&al2, i, len).0),
    )
}

/// Breadth-first search over all reachable (tree, store) states of an alphabet, to a fixpoint.
fn bfs_space<'a>(
    name: &'a str,
    alphabets: Vec<(String, Vec<Op>)>,
    cap: usize,
    each: impl Fn(&mut Live, &Op, &SMap) -> Res + Sync + 'a,
) -> Space<'a> {
    let mut alphabets = alphabets;
    alphabets.sort_by_key(|a| std::cmp::Reverse((is_deep(a.0.split(' ').next().unwrap()), a.1.len())));
    let n = alphabets.len() as u64;
    let names: Vec<String> = alphabets.iter().map(|a| a.0.clone()).collect();
    let mut s = Space::new(
        name,
        n,
        move |i, acc| {
            let (shape, al) = &alphabets[i as usize];
            // parent pointers: state -> (parent, op)
            let mut nodes: Vec<(usize, usize)> = vec![(0, usize::MAX)];
            let mut seen: HashMap<u64, ()> = HashMap::new();
            let mut queue = VecDeque::from([0usize]);
            let history = |nodes: &Vec<(usize, usize)>, mut s: usize| {
                let mut v = vec![];
                while nodes[s].1 != usize::MAX {
                    v.push(al[nodes[s].1].clone());
                    s = nodes[s].0;
                }
                v.reverse();
                v
            };
            let l0 = Live::new();
            seen.insert(l0.full(), ());
            let mut depth_max = 0;
            let mut complete = true;
            while let Some(s) = queue.pop_front() {
                let h = history(&nodes, s);
                depth_max = depth_max.max(h.len());
                if acc.timed_out() {
                    complete = false;
                    break;
                }
                for (oi, op) in al.iter().enumerate() {
                    let mut l = Live::replay(&h)?;
                    let before = l.model.clone();
                    let r = l.apply(op).and_then(|_| l.check()).and_then(|_| each(&mut l, op, &before));
                    r.map_err(|e| format!("after [{}; {}]: {}", shows(&h), show(op), e))?;
                    acc.step(1);
                    acc.trace(1);
                    acc.beat();
                    if seen.insert(l.full(), ()).is_none() {
                        acc.state(&(shape, l.state()));
                        nodes.push((s, oi));
                        if nodes.len() <= cap {
                            queue.push_back(nodes.len() - 1);
                        } else {
                            complete = false;
                        }
                    }
                }
                acc.flush();
            }
            acc.note(&format!("{} {}: states", name, shape), nodes.len() as u64);
            acc.note(&format!("{} {}: longest shortest history", name, shape), depth_max as u64);
            acc.note(&format!("{} {}: fixpoint reached (1 = yes)", name, shape), complete as u64);
            Ok(())
        },
        move |i| format!("breadth-first search of all states, shape {}", names[i as usize]),
    );
    s.chunk = 1;
    s
}

/// Sequences whose keys are picked from what the tree stores at that moment: its current root,
/// the digests of stored nodes, digests of values, and keys one bit away from them.
fn adaptive_space<'a>(name: &str, keys: [H; 2], len: usize, each: impl Fn(&mut Live, &[Op], &SMap, &Acc) -> Res + Sync + 'a) -> Space<'a> {
    const KINDS: u64 = 13;
    fn resolve(l: &Live, keys: &[H; 2], x: usize) -> Op {
        let root = l.t().root();
        let inner = l.st.0.borrow();
        let first = inner.map.keys().next().copied().unwrap_or(keys[0]);
        let last = inner.map.keys().next_back().copied().unwrap_or(keys[1]);
        // the root's children, or the halves of a leaf (key and value digest)
        let (lo, hi) = inner.map.get(&root).map_or((keys[0], keys[1]), |p| (p.2, p.3));
        match x {
            0 => Op::Up(keys[0], b"a".to_vec()),
            1 => Op::Up(keys[1], b"a".to_vec()),
            2 => Op::Up(root, b"a".to_vec()),
            3 => Op::Up(first, b"a".to_vec()),
            4 => Op::Up(last, b"b".to_vec()),
            5 => Op::Up(lo, b"a".to_vec()),
            6 => Op::Up(hi, b"a".to_vec()),
            7 => Op::Up(keys[0], root.to_vec()),
            8 => Op::Del(keys[0]),
            9 => Op::Del(root),
            10 => Op::Del(last),
            11 => Op::Del(hi),
            _ => Op::Reload,
        }
    }
    let run = move |i: u64, mut each: Option<&mut dyn FnMut(&mut Live, &[Op], &SMap, bool) -> Res>| -> Result<Vec<Op>, String> {
        let d = digits(i, KINDS, len);
        let from = first_visit(&d);
        let mut l = Live::new();
        let mut ops = vec![];
        for (p, &x) in d.iter().enumerate() {
            let op = resolve(&l, &keys, x);
            ops.push(op);
            let before = l.model.clone();
            l.apply(&ops[p]).map_err(|e| format!("after [{}]: {}", shows(&ops[..p]), e))?;
            if let Some(f) = each.as_mut() {
                f(&mut l, &ops, &before, p >= from).map_err(|e| format!("after [{}]: {}", shows(&ops), e))?;
            }
        }
        Ok(ops)
    };
    Space::new(
        name,
        KINDS.pow(len as u32),
        move |i, acc| {
            let mut f = |l: &mut Live, ops: &[Op], before: &SMap, new: bool| -> Res {
                if new {
                    acc.step(1);
                    acc.state(&l.state());
                    l.check()?;
                    each(l, ops, before, acc)?;
                }
                Ok(())
            };
            run(i, Some(&mut f))?;
            acc.trace(1);
            Ok(())
        },
        move |i| run(i, None).map_or_else(|e| e, |o| shows(&o)),
    )
}

/// Keys for trees of some dozens of entries: (name, largest number of keys, key)
pub fn medium() -> Vec<(&'static str, usize, fn(usize) -> H)> {
    vec![
        ("hashed", 1000, |i| sha(&[b"medium", &[i as u8]])),
        ("dense", 256, |i| {
            let mut k = sha(&[b"dense"]);
            k[0] = (i as u8).reverse_bits();
            k
        }),
        ("comb", 100, |i| {
            // the i-th leaf branches off at depth i
            let mut k = [0u8; 32];
            for b in 0..i {
                k[b / 8] |= 0x80 >> (b % 8);
            }
            k
        }),
        ("second byte", 256, |i| {
            let mut k = [0xa5; 32];
            k[1] = (i as u8).wrapping_mul(37);
            k
        }),
        ("two ends", 12, |i| {
            let mut k = [0u8; 32];
            k[0] = (i as u8 / 2) << 5;
            k[31] = i as u8 & 1;
            k
        }),
    ]
}
/// A tree of n such keys, after some overwriting and deleting, and operations to try on it.
pub fn medium_tree(f: usize, n: usize) -> Result<(Live, Vec<Op>), String> {
    let (_, _, key) = medium()[f];
    let mut l = Live::new();
    for i in 0..n + 3 {
        l.apply(&Op::Up(key((i * 5 + 2) % (n + 3)), vec![i as u8, 1]))?;
    }
    for i in 0..3 {
        l.apply(&Op::Del(key(n + i)))?;
    }
    l.apply(&Op::Up(key(n / 2), b"overwritten".to_vec()))?;
    l.check()?;
    let mut ops = vec![];
    for i in 0..n.max(1) {
        ops.push(Op::Del(key(i)));
        ops.push(Op::Up(key(i), b"another".to_vec()));
    }
    for i in 0..3 {
        ops.push(Op::Up(key(n + i), b"fresh".to_vec()));
        ops.push(Op::Del(key(n + i)));
    }
    for d in [0, 1, 3, 6, 9, 14, 30] {
        ops.push(Op::Up(flip(&key(d % n.max(1)), d), b"fresh".to_vec()));
        ops.push(Op::Del(flip(&key(d % n.max(1)), d)));
    }
    ops.push(Op::Reload);
    Ok((l, ops))
}

/// Key families for trees with very many entries: (name, number of keys, key)
pub fn families(t: Tier) -> Vec<(&'static str, u32, fn(u32) -> H)> {
    let big = t.pick(70_000, 250_000);
    vec![
        ("hashed keys", big, |i| sha(&[b"family", &i.to_be_bytes()])),
        ("keys counting in the first bytes", big, |i| {
            let mut k = [0x3c; 32];
            k[..4].copy_from_slice(&(i << 8).to_be_bytes());
            k
        }),
        ("keys counting in bytes 4..8", t.pick(20_000, 60_000), |i| {
            let mut k = sha(&[b"family 2"]);
            k[4..8].copy_from_slice(&i.to_be_bytes());
            k
        }),
        ("keys counting in the last bytes", t.pick(2_000, 8_000), |i| {
            let mut k = [0u8; 32];
            k[28..].copy_from_slice(&i.to_be_bytes());
            k
        }),
        ("keys counting in bytes 14..18", t.pick(6_000, 20_000), |i| {
            let mut k = [0xff; 32];
            k[14..18].copy_from_slice(&i.to_be_bytes());
            k
        }),
        ("every two-byte start", 65_536, |i| {
            let mut k = [0u8; 32];
            k[..2].copy_from_slice(&(i as u16).to_be_bytes());
            k[30..].copy_from_slice(&(i as u16).to_be_bytes());
            k
        }),
        ("every two-byte end, split at the top", t.pick(6_000, 24_000), |i| {
            let mut k = [0u8; 32];
            k[30..].copy_from_slice(&(i as u16).wrapping_mul(40503).to_be_bytes());
            k[0] = i as u8;
            k
        }),
    ]
}
/// Follow the stored nodes from the root towards `k`: every node on the way is filed under its own
/// digest and has both children stored. Returns the digests up to and including the key's own leaf,
/// or nothing if the key is absent.
fn stored_path(l: &Live, k: &H) -> Result<Vec<H>, String> {
    let inner = l.st.0.borrow();
    let mut h = l.t().root();
    let mut v = vec![];
    let mut d = 0;
    while h != ZERO {
        let p = inner.map.get(&h).ok_or_else(|| format!("node {} is not stored", hx(&h)))?;
        let leaf = p.1 == 0;
        if h != sha(&[&[!leaf as u8], &p.2, &p.3]) || p.0 != if leaf { 0 } else { 256 - d as u32 } {
            return Err(format!("node {} at depth {d} is stored as {:?}", hx(&h), prim(p)));
        }
        v.push(h);
        if leaf {
            return Ok(if p.2 == *k { v } else { vec![] });
        }
        let (on, side) = if bit(k, d) { (p.3, p.2) } else { (p.2, p.3) };
        if side != ZERO && !inner.map.contains_key(&side) {
            return Err(format!("node {} at depth {} is not stored", hx(&side), d + 1));
        }
        h = on;
        d += 1;
    }
    Ok(vec![])
}
/// Number of entries below the root, all nodes checked.
fn stored_count(l: &Live) -> Result<u64, String> {
    let inner = l.st.0.borrow();
    let mut todo = vec![(l.t().root(), 0usize)];
    let mut n = 0;
    while let Some((h, d)) = todo.pop() {
        if h == ZERO {
            continue;
        }
        let p = inner.map.get(&h).ok_or_else(|| format!("node {} at depth {d} is not stored", hx(&h)))?;
        if p.1 == 0 {
            n += 1;
        } else {
            todo.push((p.2, d + 1));
            todo.push((p.3, d + 1));
        }
        if h != sha(&[&[p.1], &p.2, &p.3]) || p.0 != if p.1 == 0 { 0 } else { 256 - d as u32 } {
            return Err(format!("node {} at depth {d} is stored as {:?}", hx(&h), prim(p)));
        }
    }
    Ok(n)
}
/// Growing, overwriting, thinning out, growing again and emptying one tree per key family.
fn big_space<'a>(what: &str, t: Tier, reload: bool, each: impl Fn(&mut Live, &Op, u64, &[H]) -> Res + Sync + 'a) -> Space<'a> {
    let fams = families(t);
    let names: Vec<String> = fams.iter().map(|f| format!("{} {}", f.1, f.0)).collect();
    let mut s = Space::new(
        what,
        fams.len() as u64,
        move |i, acc| {
            let (name, n, key) = fams[i as usize];
            let mut l = Live::new();
            let mut trie = Trie::Empty;
            let mut c = 0u64;
            let mut go = |l: &mut Live, op: Op| -> Res {
                c += 1;
                acc.beat();
                let ctx = |e: String| format!("{name}: operation {c} ({}): {e}", show(&op));
                let path = match &op {
                    Op::Del(k) => stored_path(l, k).map_err(ctx)?,
                    _ => vec![],
                };
                l.run(&op).map_err(ctx)?;
                match &op {
                    Op::Up(k, v) => trie.set(k, &value_digest(v), 0),
                    Op::Del(k) => trie.del(k, 0),
                    Op::Reload => {}
                }
                if l.t().root() != trie.root() {
                    return Err(ctx(format!("root {} differs from the specified root {}", hx(&l.t().root()), hx(&trie.root()))));
                }
                each(l, &op, c, &path).map_err(ctx)?;
                if reload {
                    let r = l.t().root();
                    l.run(&Op::Reload).map_err(|e| ctx(format!("then load at {}: {e}", hx(&r))))?;
                    if l.t().root() != r {
                        return Err(ctx(format!("loaded at {} the tree reports {}", hx(&r), hx(&l.t().root()))));
                    }
                }
                acc.step(1);
                if c % 64 == 0 {
                    acc.state(&l.state());
                }
                Ok(())
            };
            let step = (n / 3 * 2) | 1; // a stride coprime enough to visit in a scattered order
            let at = |j: u32| ((j as u64 * step as u64 + 1) % n as u64) as u32;
            for j in 0..n {
                go(&mut l, Op::Up(key(j), j.to_be_bytes()[..1 + (j % 4) as usize].to_vec()))?;
            }
            for j in (0..n).step_by(5) {
                go(&mut l, Op::Up(key(at(j)), vec![7; 1 + (j % 130) as usize]))?;
            }
            for j in (0..n).filter(|j| j % 4 != 1) {
                go(&mut l, Op::Del(key(j)))?;
            }
            for j in (0..n).step_by(7) {
                go(&mut l, Op::Up(key(at(j)), j.to_le_bytes().to_vec()))?;
            }
            for j in (0..n).rev() {
                go(&mut l, Op::Del(key(j)))?;
            }
            if l.t().root() != ZERO {
                return Err(format!("{name}: the emptied tree has the root {}", hx(&l.t().root())));
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("{}: insert all, overwrite, delete most, insert again, delete all", names[i as usize]),
    );
    s.chunk = 1;
    s
}

// ------------------------------------------------------------------ C01

fn many_keys(bits: usize) -> Vec<H> {
    (0..1u32 << bits)
        .map(|i| {
            let mut k = sha(&[b"many", &i.to_be_bytes()]);
            let v = (i << (16 - bits)) as u16;
            let low = u16::from_be_bytes([k[0], k[1]]) & ((1u32 << (16 - bits)) as u32).wrapping_sub(1) as u16;
            k[..2].copy_from_slice(&(v | low).to_be_bytes());
            k
        })
        .collect()
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    let bits = n.trailing_zeros();
    v.push((0..n).map(|i| i.reverse_bits() >> (usize::BITS - bits)).collect());
    for s in [3usize, 5, 7, 11] {
        v.push((0..n).map(|i| (i * s + 1) % n).collect());
    }
    v
}

pub fn c01(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        // four keys, every operation, short
        let len4 = t.pick(if deep { 4 } else { 5 }, if deep { 4 } else { 6 });
        let al = alphabet(&keys, 2, true, false);
        v.push(seq_space(format!("4 keys/{name}/length {len4}"), al, len4, |l, _, _, _| l.check()));
        // three keys, one value, longer
        let len3 = t.pick(if deep { 6 } else { 8 }, if deep { 7 } else { 9 });
        let al = alphabet(&keys[..3], 1, false, false);
        v.push(seq_space(format!("3 keys/{name}/length {len3}"), al, len3, |l, _, _, _| l.check()));
    }
    // all reachable states of small alphabets
    let mut als = vec![];
    for (name, keys) in shapes() {
        als.push((format!("{name} 2 keys x 2 values"), alphabet(&keys[..2], 2, true, true)));
        als.push((format!("{name} 3 keys x 1 value"), alphabet(&keys[..3], 1, false, true)));
    }
    v.push(bfs_space("fixpoint", als, t.pick(3_000, 200_000), |_, _, _| Ok(())));
    if t.thorough() {
        let als = shapes()
            .into_iter()
            .flat_map(|(name, keys)| {
                [
                    (format!("{name} 4 keys x 1 value"), alphabet(&keys, 1, false, false)),
                    (format!("{name} 3 keys x 2 values"), alphabet(&keys[..3], 2, false, false)),
                ]
            })
            .collect();
        v.push(bfs_space("fixpoint (large)", als, 150_000, |_, _, _| Ok(())));
    }
    // every insertion order and every deletion order
    let n = t.pick(5, 6);
    for (name, keys) in shapes() {
        let mut keys = keys;
        keys.push(flip(&keys[1], 3));
        keys.push(flip(&keys[0], 130));
        keys.truncate(n);
        let f = factorial(n);
        let k2 = keys.clone();
        let script = move |keys: &[H], i: u64| {
            let (a, b) = (nth_perm(i / f, n), nth_perm(i % f, n));
            let mut ops: Vec<Op> = a.iter().map(|&x| Op::Up(keys[x], vec![x as u8 + 1; 1 + 33 * x])).collect();
            ops.extend(b.iter().map(|&x| Op::Del(keys[x])));
            ops.push(Op::Up(keys[b[0]], b"again".to_vec()));
            ops
        };
        v.push(Space::new(
            format!("permutations of {n} keys/{name}"),
            f * f,
            move |i, acc| {
                let mut l = Live::new();
                let ops = script(&keys, i);
                for (p, op) in ops.iter().enumerate() {
                    l.apply(op).and_then(|_| l.check()).map_err(|e| format!("after [{}]: {}", shows(&ops[..=p]), e))?;
                    acc.step(1);
                    acc.state(&l.state());
                }
                acc.trace(1);
                Ok(())
            },
            move |i| shows(&script(&k2, i)),
        ));
    }
    // value lengths and contents
    let lens: Vec<usize> = crate::p_binary::lengths(t).into_iter().filter(|l| *l > 0).collect();
    let l2 = lens.clone();
    let keys = shapes()[1].1.clone();
    v.push(Space::new(
        "value lengths x fill bytes",
        lens.len() as u64 * 4,
        move |i, acc| {
            let (n, fill) = (lens[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]);
            let mut l = Live::new();
            for op in [
                Op::Up(keys[0], vec![fill; n]),
                Op::Up(keys[1], vec![fill; n]),
                Op::Up(keys[0], vec![fill; n + 1]),
                Op::Reload,
                Op::Del(keys[1]),
                Op::Del(keys[0]),
                Op::Del(keys[0]),
            ] {
                l.apply(&op)?;
                l.check().map_err(|e| format!("value length {n}, fill {fill:#x}, after {}: {e}", show(&op)))?;
                acc.step(1);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("values of {} bytes of {:#x}", l2[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]),
    ));
    // values chosen to look like encodings of the tree's own nodes
    let keys = shapes()[1].1.clone();
    let vals = adversarial_values(&keys);
    let (n, m) = (vals.len() as u64, vals.len() as u64);
    let v2 = vals.clone();
    v.push(Space::new(
        "values imitating node encodings",
        n * m,
        move |i, acc| {
            let (x, y) = (&vals[(i / m) as usize], &vals[(i % m) as usize]);
            let mut l = Live::new();
            for op in [
                Op::Up(keys[0], x.clone()),
                Op::Up(keys[1], y.clone()),
                Op::Up(keys[2], x.clone()),
                Op::Up(keys[0], y.clone()),
                Op::Del(keys[1]),
                Op::Del(keys[1]),
                Op::Up(keys[1], x.clone()),
                Op::Del(keys[2]),
            ] {
                l.apply(&op)?;
                l.check().map_err(|e| format!("after {}: {e}", show(&op)))?;
                acc.step(1);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("values {} and {}", hx(&v2[(i / m) as usize]), hx(&v2[(i % m) as usize])),
    ));
    // larger trees: every key of a fully populated top, inserted, overwritten and deleted in several orders
    let bits = t.pick(7, 9);
    let keys = many_keys(bits);
    let n = keys.len();
    let os = orders(n);
    let no = os.len() as u64;
    v.push(Space::new(
        format!("{n} keys, {no} insertion orders x {no} deletion orders"),
        no * no,
        move |i, acc| {
            let (a, b) = (&os[(i / no) as usize], &os[(i % no) as usize]);
            let mut l = Live::new();
            let mut c = 0u64;
            let mut go = |l: &mut Live, op: Op| -> Res {
                l.apply(&op)?;
                c += 1;
                acc.beat();
                l.check().map_err(|e| format!("after operation {c} ({}): {e}", show(&op)))?;
                acc.step(1);
                acc.state(&l.state());
                Ok(())
            };
            for (p, &x) in a.iter().enumerate() {
                go(&mut l, Op::Up(keys[x], vec![x as u8; 1 + p % 70]))?;
            }
            for &x in b.iter().step_by(3) {
                go(&mut l, Op::Up(keys[x], b"over".to_vec()))?;
            }
            for &x in b.iter() {
                go(&mut l, Op::Del(keys[x]))?;
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("insertion order {} then deletion order {}", i / no, i % no),
    ));
    v.push(big_space("trees of very many entries", t, false, |_, _, _, _| Ok(())));
    v.push(crate::p_special::sparse_space(t, |l, _, _, _| l.check()));
    v
}
pub fn adversarial_values(keys: &[H]) -> Vec<Vec<u8>> {
    let va = value_digest(b"a");
    let l0 = sp_leaf(&keys[0], &va);
    let l1 = sp_leaf(&keys[1], &va);
    let cat = |p: &[&[u8]]| p.concat();
    let all = vec![
        b"a".to_vec(),
        vec![0],
        vec![1],
        vec![0; 32],
        vec![0; 64],
        vec![0xff; 32],
        va.to_vec(),
        l0.to_vec(),
        cat(&[&[0], &keys[0], &va]),
        cat(&[&[1], &l0, &l1]),
        cat(&[&keys[0], &va]),
        cat(&[&l0, &l1]),
        cat(&[&[1], &l0, &ZERO]),
        sha(&[&[1], &l0, &l1]).to_vec(),
        keys[1].to_vec(),
    ];
    // each once: with some keys, two of these are the same
    all.iter().enumerate().filter(|(i, v)| !all[..*i].contains(v)).map(|(_, v)| v.clone()).collect()
}

// ------------------------------------------------------------------ C02

pub fn c02(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let each = |l: &mut Live, _: &[Op], _: &SMap, _: &Acc| -> Res {
        l.check()?;
        // a second tree loaded from the same store at the reported root
        let root = l.t().root();
        let t2 = Tree::load(l.st.clone(), &root).map_err(|e| format!("load at the current root {} failed: {:?}", hx(&root), e))?;
        if t2.root() != root {
            return Err(format!("tree loaded at {} reports root {}", hx(&root), hx(&t2.root())));
        }
        // roots that are not in the store
        let mut foreign = vec![[0x11u8; 32], [0xff; 32], flip(&root, 0), flip(&root, 255), flip(&root, 100), sha(&[&root])];
        foreign.push({
            let mut x = root;
            x.reverse();
            x
        });
        for f in foreign {
            if f == ZERO || l.st.has(&f) {
                continue;
            }
            match Tree::load(l.st.clone(), &f) {
                Ok(_) => return Err(format!("load of the never stored root {} succeeded", hx(&f))),
                Err(e) => {
                    let s = e2s(e);
                    if !s.starts_with("LoadError") {
                        return Err(format!("load of the never stored root {} reported {s}, not a load error", hx(&f)));
                    }
                }
            }
        }
        Ok(())
    };
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let len = t.pick(if deep { 5 } else { 7 }, if deep { 6 } else { 8 });
        let al = alphabet(&keys[..3], 1, false, true);
        v.push(seq_space(format!("3 keys + reload/{name}/length {len}"), al, len, each));
        let len = t.pick(if deep { 3 } else { 4 }, if deep { 4 } else { 5 });
        let al = alphabet(&keys, 2, true, true);
        v.push(seq_space(format!("4 keys x 2 values + reload/{name}/length {len}"), al, len, each));
    }
    // a reload before every operation, on all orders
    let n = t.pick(4, 5);
    for (name, keys) in shapes() {
        let mut keys = keys;
        keys.push(flip(&keys[1], 3));
        keys.truncate(n);
        let f = factorial(n);
        let k2 = keys.clone();
        let script = move |keys: &[H], i: u64| {
            let (a, b) = (nth_perm(i / f, n), nth_perm(i % f, n));
            let mut ops: Vec<Op> = a.iter().map(|&x| Op::Up(keys[x], vec![x as u8 + 1; 1 + 33 * x])).collect();
            ops.extend(b.iter().map(|&x| Op::Del(keys[x])));
            ops.into_iter().flat_map(|o| [o, Op::Reload]).collect::<Vec<_>>()
        };
        v.push(Space::new(
            format!("reload after every operation, permutations of {n} keys/{name}"),
            f * f,
            move |i, acc| {
                let mut l = Live::new();
                let ops = script(&keys, i);
                for (p, op) in ops.iter().enumerate() {
                    l.apply(op).and_then(|_| l.check()).map_err(|e| format!("after [{}]: {}", shows(&ops[..=p]), e))?;
                    acc.step(1);
                    acc.state(&l.state());
                }
                acc.trace(1);
                Ok(())
            },
            move |i| shows(&script(&k2, i)),
        ));
    }
    // large tree: reload at every size, growing and shrinking
    let bits = t.pick(6, 8);
    let keys = many_keys(bits);
    let n = keys.len();
    let os = orders(n);
    let no = os.len() as u64;
    v.push(Space::new(
        format!("{n} keys with a reload after each operation"),
        no * no,
        move |i, acc| {
            let mut l = Live::new();
            let ops = os[(i / no) as usize]
                .iter()
                .map(|&x| Op::Up(keys[x], vec![x as u8; 1 + x % 70]))
                .chain(os[(i % no) as usize].iter().map(|&x| Op::Del(keys[x])));
            for (p, op) in ops.enumerate() {
                acc.beat();
                l.apply(&op)
                    .and_then(|_| l.apply(&Op::Reload))
                    .and_then(|_| l.check())
                    .map_err(|e| format!("after operation {p} ({}): {e}", show(&op)))?;
                acc.step(2);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("insertion order {} then deletion order {}, reload each time", i / no, i % no),
    ));
    v.push(big_space("trees of very many entries, a reload after each operation", t, true, |_, _, _, _| Ok(())));
    v.push(adaptive_space(
        "keys picked from the stored digests, reloads in between",
        [shapes()[1].1[0], shapes()[1].1[1]],
        t.pick(4, 6),
        each,
    ));
    v.push(crate::p_special::sparse_space(t, each));
    v
}

// ------------------------------------------------------------------ C03

pub fn c03(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // two keys diverging at every depth, from several base patterns, all scripts
    let len = t.pick(3, 4);
    let bases = t.pick(4, 6);
    let nops = 6u64;
    let scripts = nops.pow(len as u32);
    let make = move |i: u64| {
        let (d, r) = ((i / (bases * scripts)) as usize, i % (bases * scripts));
        let a = base((r / scripts) as usize);
        let b = flip(&a, d);
        let al = alphabet(&[a, b], 2, false, false);
        (d, seq_of(&al, r % scripts, len))
    };
    v.push(Space::new(
        format!("key pairs diverging at each of 256 depths x {bases} patterns x all scripts of length {len}"),
        256 * bases * scripts,
        move |i, acc| {
            let (d, (ops, from)) = make(i);
            let mut l = Live::new();
            for (p, op) in ops.iter().enumerate() {
                l.apply(op).map_err(|e| format!("depth {d}, after [{}]: {}", shows(&ops[..p]), e))?;
                if p >= from {
                    l.check().map_err(|e| format!("depth {d}, after [{}]: {}", shows(&ops[..=p]), e))?;
                    acc.step(1);
                    acc.state(&l.state());
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| {
            let (d, (ops, _)) = make(i);
            format!("divergence at bit {d}: {}", shows(&ops))
        },
    ));
    // three keys with every pair of divergence depths
    let depths: Vec<usize> = if t.thorough() {
        (0..256).collect()
    } else {
        vec![0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 191, 192, 247, 248, 253, 254, 255]
    };
    let nd = depths.len() as u64;
    let triple = move |depths: &[usize], i: u64| {
        // (d1, d2, which key the third diverges from, insertion order, deletion order)
        let pd = i / 72;
        let r = i % 72;
        let (d1, d2) = (depths[(pd / nd) as usize], depths[(pd % nd) as usize]);
        let a = base(4);
        let b = flip(&a, d1);
        let c = if r / 36 == 0 { flip(&a, d2) } else { flip(&b, d2) };
        let k = [a, b, c];
        let (p, q) = (nth_perm((r % 36) / 6, 3), nth_perm(r % 6, 3));
        let mut ops: Vec<Op> = p.iter().map(|&x| Op::Up(k[x], vec![x as u8 + 1])).collect();
        ops.push(Op::Up(k[p[1]], b"changed".to_vec()));
        ops.push(Op::Reload);
        ops.extend(q.iter().map(|&x| Op::Del(k[x])));
        (d1, d2, ops)
    };
    let dd = depths.clone();
    v.push(Space::new(
        format!("key triples over {nd}x{nd} divergence depths x insertion and deletion orders"),
        nd * nd * 72,
        move |i, acc| {
            let (d1, d2, ops) = triple(&depths, i);
            let mut l = Live::new();
            for (p, op) in ops.iter().enumerate() {
                l.apply(op).and_then(|_| l.check()).map_err(|e| format!("depths {d1},{d2}, after [{}]: {}", shows(&ops[..=p]), e))?;
                acc.step(1);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| {
            let (d1, d2, ops) = triple(&dd, i);
            format!("depths {d1},{d2}: {}", shows(&ops))
        },
    ));
    // single-bit and staircase key families: all 256 keys of a family in one tree
    v.push(Space::new(
        "families of 256 related keys in one tree",
        8,
        move |i, acc| {
            let b = base([0, 1, 2, 4][i as usize % 4]);
            let keys: Vec<H> = (0..256).map(|d| if i < 4 { flip(&b, d) } else { (0..=d).fold(b, |k, x| flip(&k, x)) }).collect();
            let mut l = Live::new();
            let go = |l: &mut Live, op: Op, n: usize| -> Res {
                l.apply(&op)?;
                acc.beat();
                acc.step(1);
                if n % 4 == 0 || n < 16 || n > 240 {
                    l.check().map_err(|e| format!("operation {n} {}: {e}", show(&op)))?;
                    acc.state(&l.state());
                }
                Ok(())
            };
            for (n, k) in keys.iter().enumerate() {
                go(&mut l, Op::Up(*k, vec![n as u8, 7]), n)?;
            }
            for (n, k) in keys.iter().enumerate() {
                let k = if i % 2 == 0 { k } else { &keys[255 - n] };
                go(&mut l, Op::Del(*k), n)?;
            }
            l.check()?;
            acc.trace(1);
            Ok(())
        },
        |i| format!("{} family over base pattern {}", if i < 4 { "single-bit" } else { "staircase" }, [0, 1, 2, 4][i as usize % 4]),
    ));
    // keys that coincide with digests the tree computes or stores
    for (name, keys) in shapes() {
        if !matches!(name, "top" | "comb" | "hashed" | "edge" | "byte") {
            continue;
        }
        let (k1, k2) = (keys[0], keys[1]);
        let cands = digest_candidates(k1, k2);
        let nc = cands.len() as u64;
        let len = t.pick(4, if name == "comb" || name == "hashed" { 6 } else { 5 });
        let vals = if t.thorough() { 1 } else { 1 };
        let nal = 3 * (vals as u64 + 1) + 1;
        let per = nal.pow(len as u32);
        let mk = move |cands: &[H], i: u64| {
            let al = alphabet(&[k1, k2, cands[(i / per) as usize]], vals, false, true);
            seq_of(&al, i % per, len)
        };
        let c2 = cands.clone();
        v.push(Space::new(
            format!("{nc} keys equal to node digests/{name}/length {len}"),
            nc * per,
            move |i, acc| {
                let (ops, from) = mk(&cands, i);
                let mut l = Live::new();
                for (p, op) in ops.iter().enumerate() {
                    l.apply(op).map_err(|e| format!("after [{}]: {}", shows(&ops[..p]), e))?;
                    if p >= from {
                        l.check().map_err(|e| format!("after [{}]: {}", shows(&ops[..=p]), e))?;
                        acc.step(1);
                        acc.state(&l.state());
                    }
                }
                acc.trace(1);
                Ok(())
            },
            move |i| format!("third key {}: {}", hex(&c2[(i / per) as usize]), shows(&mk(&c2, i).0)),
        ));
    }
    for (name, keys) in shapes() {
        if matches!(name, "comb" | "hashed" | "edge") {
            v.push(adaptive_space(
                &format!("keys picked from the stored digests/{name}"),
                [keys[0], keys[1]],
                t.pick(if name == "edge" { 4 } else { 5 }, if name == "edge" { 5 } else { 6 }),
                |_, _, _, _| Ok(()),
            ));
        }
    }
    v.push(crate::p_special::near_digests(t));
    v
}
/// Digests that occur in trees over k1, k2 (and over those plus a first-level digest key).
fn digest_candidates(k1: H, k2: H) -> Vec<H> {
    let vd = value_digest(b"a");
    let mut c = vec![vd, sha(&[]), k1];
    let maps: Vec<SMap> = vec![SMap::from([(k1, vd)]), SMap::from([(k2, vd)]), SMap::from([(k1, vd), (k2, vd)])];
    for m in &maps {
        for (h, _) in sp_nodes(m) {
            c.push(h);
        }
    }
    let first = c.clone();
    for x in first.iter().skip(3).take(3) {
        c.push(sp_leaf(x, &vd));
    }
    c.push(value_digest(&k1));
    c.push(sha(&[&c[3].clone()]));
    let mut out = vec![];
    for x in c {
        if x != k1 && x != k2 && !out.contains(&x) {
            out.push(x);
        }
    }
    out.truncate(16);
    out
}

// ------------------------------------------------------------------ C04

fn storage_exact(l: &mut Live, ops: &[Op], before: &SMap) -> Res {
    l.stored_all(&l.model.clone())?;
    for (k, p) in l.st.0.borrow().map.iter() {
        let d = match p.1 {
            0 => sha(&[&[0], &p.2, &p.3]),
            1 => sha(&[&[1], &p.2, &p.3]),
            x => return Err(format!("entry {} has the marker {x}", hx(k))),
        };
        if d != *k {
            return Err(format!("the entry filed under {} has the digest {}", hx(k), hx(&d)));
        }
    }
    if let Some(Op::Del(k)) | Some(Op::Up(k, _)) = ops.last() {
        let deleting = !matches!(ops.last(), Some(Op::Up(_, v)) if !v.is_empty());
        if deleting && before.contains_key(k) {
            for h in sp_path(before, k) {
                if l.st.has(&h) {
                    return Err(format!("node {} of the deleted key's path is still stored", hx(&h)));
                }
            }
        }
    }
    Ok(())
}

pub fn c04(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let len = t.pick(if deep { 4 } else { 5 }, if deep { 5 } else { 6 });
        let al = alphabet(&keys[..3], 2, false, true);
        v.push(seq_space(format!("3 keys x 2 values/{name}/length {len}"), al, len, |l, ops, b, _| {
            l.check()?;
            storage_exact(l, ops, b)
        }));
        let len = t.pick(if deep { 5 } else { 6 }, if deep { 6 } else { 7 });
        let al = alphabet(&keys, 1, false, false);
        v.push(seq_space(format!("4 keys x 1 value/{name}/length {len}"), al, len, |l, ops, b, _| {
            l.check()?;
            storage_exact(l, ops, b)
        }));
    }
    let mut als = vec![];
    for (name, keys) in shapes() {
        als.push((format!("{name} 2 keys x 2 values"), alphabet(&keys[..2], 2, true, true)));
        als.push((format!("{name} 3 keys x 1 value"), alphabet(&keys[..3], 1, false, true)));
    }
    v.push(bfs_space("fixpoint", als, t.pick(2_000, 200_000), |l, op, b| storage_exact(l, std::slice::from_ref(op), b)));
    // keys equal to digests: nothing may be filed under them but the node itself
    let keys = shapes()[1].1.clone();
    let cands = digest_candidates(keys[0], keys[1]);
    for (ci, c) in cands.into_iter().enumerate() {
        let al = alphabet(&[keys[0], keys[1], c], 1, false, false);
        let len = t.pick(4, 6);
        v.push(seq_space(format!("third key equal to digest {ci}/length {len}"), al, len, |l, ops, b, _| {
            l.check()?;
            storage_exact(l, ops, b)
        }));
    }
    for (name, keys) in shapes() {
        if matches!(name, "comb" | "hashed") {
            v.push(adaptive_space(
                &format!("keys picked from the stored digests/{name}"),
                [keys[0], keys[1]],
                t.pick(4, 6),
                |l, ops, b, _| storage_exact(l, ops, b),
            ));
        }
    }
    // every divergence depth
    v.push(Space::new(
        "key pairs at each of 256 depths x patterns",
        256 * 4,
        |i, acc| {
            let a = base((i % 4) as usize);
            let b = flip(&a, (i / 4) as usize);
            let mut l = Live::new();
            let ops = [
                Op::Up(a, vec![1]),
                Op::Up(b, vec![2]),
                Op::Up(a, vec![3]),
                Op::Del(b),
                Op::Up(b, vec![2]),
                Op::Reload,
                Op::Del(a),
                Op::Del(b),
            ];
            for p in 0..ops.len() {
                let before = l.model.clone();
                l.apply(&ops[p])?;
                l.check()?;
                storage_exact(&mut l, &ops[..=p], &before).map_err(|e| format!("depth {}, after [{}]: {e}", i / 4, shows(&ops[..=p])))?;
                acc.step(1);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        |i| format!("depth {}, pattern {}", i / 4, i % 4),
    ));
    // large trees
    let bits = t.pick(5, 7);
    let keys = many_keys(bits);
    let os = orders(keys.len());
    let no = os.len() as u64;
    v.push(Space::new(
        format!("{} keys inserted and deleted in several orders", keys.len()),
        no * no,
        move |i, acc| {
            let mut l = Live::new();
            let ops: Vec<Op> = os[(i / no) as usize]
                .iter()
                .map(|&x| Op::Up(keys[x], vec![x as u8; 1 + x % 70]))
                .chain(os[(i % no) as usize].iter().map(|&x| Op::Del(keys[x])))
                .collect();
            for (p, op) in ops.iter().enumerate() {
                acc.beat();
                let before = l.model.clone();
                l.apply(op)?;
                l.check()?;
                storage_exact(&mut l, &ops[..=p], &before).map_err(|e| format!("after operation {p} ({}): {e}", show(op)))?;
                acc.step(1);
                acc.state(&l.state());
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("insertion order {} then deletion order {}", i / no, i % no),
    ));
    v.push(big_space("trees of very many entries", t, false, |l, op, c, path| {
        if let Op::Up(k, v) = op {
            let p = stored_path(l, k)?;
            let leaf = sp_leaf(k, &value_digest(v));
            if p.last() != Some(&leaf) {
                return Err("the stored nodes do not lead to the new entry".into());
            }
        }
        if let Op::Del(k) = op {
            if !stored_path(l, k)?.is_empty() {
                return Err("the stored nodes still lead to the deleted entry".into());
            }
            for h in path {
                if l.st.has(h) {
                    return Err(format!("node {} of the deleted key's path is still stored", hx(h)));
                }
            }
        }
        if c % 20_000 == 0 || (c < 4000 && c % 500 == 0) {
            stored_count(l)?;
        }
        Ok(())
    }));
    v.push(crate::p_special::sparse_space(t, |l, ops, b, _| {
        l.check()?;
        storage_exact(l, ops, b)
    }));
    v
}

// ------------------------------------------------------------------ C05 (differential: no model)

pub fn c05(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let vals = if deep { 1 } else { 2 };
        let max = t.pick(if deep { 3 } else { 2 }, if deep { 4 } else { 3 });
        let al = alphabet(&keys, vals, false, false);
        let total = count_upto(al.len() as u64, max);
        let (al2, al3) = (al.clone(), al.clone());
        let ks = keys.clone();
        v.push(Space::new(
            format!("no-ops, undo and commutation from every history of length <= {max}/{name}"),
            total,
            move |i, acc| {
                let h = seq_upto(&al, i, max);
                let fresh = || -> Result<Live, String> {
                    let mut l = Live::new();
                    for o in &h {
                        l.run(o).map_err(|e| format!("[{}]: {} failed: {}", shows(&h), show(o), e))?;
                        model_apply(&mut l.model, o);
                    }
                    Ok(l)
                };
                let run = |l: &mut Live, o: &Op| -> Res {
                    acc.step(1);
                    l.run(o).map_err(|e| format!("after [{}]: {} failed: {}", shows(&h), show(o), e))
                };
                let l0 = fresh()?;
                let r0 = l0.t().root();
                acc.state(&(name, l0.state()));
                let present = l0.model.clone();
                // what each key currently holds, from the history itself
                let val_of = |k: &H| {
                    h.iter().rev().find_map(|o| match o {
                        Op::Up(x, v) if x == k => Some(v.clone()),
                        _ => None,
                    })
                };
                let mut noops = vec![];
                for k in &ks {
                    if present.contains_key(k) {
                        noops.push(Op::Up(*k, val_of(k).unwrap()));
                    } else {
                        noops.push(Op::Del(*k));
                        noops.push(Op::Up(*k, vec![]));
                    }
                }
                let stranger = sha(&[b"stranger", name.as_bytes()]);
                noops.push(Op::Del(stranger));
                noops.push(Op::Del(flip(&ks[0], 200)));
                noops.push(Op::Del(r0));
                // roots after each single operation, undisturbed
                let mut plain = vec![];
                for o in &al {
                    let mut l = fresh()?;
                    run(&mut l, o)?;
                    plain.push(l.t().root());
                }
                for n in &noops {
                    for (oi, o) in al.iter().enumerate() {
                        let mut l = fresh()?;
                        run(&mut l, n)?;
                        if l.t().root() != r0 {
                            return Err(format!("after [{}]: {} changed the root", shows(&h), show(n)));
                        }
                        run(&mut l, o)?;
                        if l.t().root() != plain[oi] {
                            return Err(format!("after [{}]: {} before {} changes the outcome", shows(&h), show(n), show(o)));
                        }
                        acc.trace(1);
                    }
                }
                // insert a fresh key, delete it
                for k in ks.iter().chain([&stranger]) {
                    if present.contains_key(k) {
                        continue;
                    }
                    for (oi, o) in al.iter().enumerate() {
                        let mut l = fresh()?;
                        run(&mut l, &Op::Up(*k, b"fresh".to_vec()))?;
                        run(&mut l, &Op::Del(*k))?;
                        if l.t().root() != r0 {
                            return Err(format!("after [{}]: inserting and deleting {} does not restore the root", shows(&h), hx(k)));
                        }
                        run(&mut l, o)?;
                        if l.t().root() != plain[oi] {
                            return Err(format!(
                                "after [{}], inserting and deleting {} and then {}: root differs",
                                shows(&h),
                                hx(k),
                                show(o)
                            ));
                        }
                        acc.trace(1);
                    }
                }
                // different keys commute
                let key = |o: &Op| match o {
                    Op::Up(k, _) | Op::Del(k) => *k,
                    Op::Reload => ZERO,
                };
                for a in 0..al.len() {
                    for b in a + 1..al.len() {
                        if key(&al[a]) == key(&al[b]) {
                            continue;
                        }
                        let mut x = fresh()?;
                        run(&mut x, &al[a])?;
                        run(&mut x, &al[b])?;
                        let mut y = fresh()?;
                        run(&mut y, &al[b])?;
                        run(&mut y, &al[a])?;
                        if x.t().root() != y.t().root() {
                            return Err(format!("after [{}]: {} and {} do not commute", shows(&h), show(&al[a]), show(&al[b])));
                        }
                        acc.trace(2);
                    }
                }
                Ok(())
            },
            move |i| {
                format!("history [{}], then all no-ops, undos and pairs over {} operations", shows(&seq_upto(&al2, i, max)), al3.len())
            },
        ));
    }
    // pairs of keys at each depth
    v.push(Space::new(
        "no-ops, undo and commutation for key pairs at each of 256 depths",
        256 * 3,
        |i, acc| {
            let a = base([0, 1, 4][(i % 3) as usize]);
            let d = (i / 3) as usize;
            let (b, c) = (flip(&a, d), flip(&flip(&a, d), 255 - d));
            let root = |ops: &[Op]| -> Result<H, String> {
                let mut l = Live::new();
                for o in ops {
                    acc.step(1);
                    l.run(o).map_err(|e| format!("depth {d}: [{}]: {} failed: {}", shows(ops), show(o), e))?;
                }
                acc.state(&l.state());
                Ok(l.t().root())
            };
            let (ua, ub, uc) = (Op::Up(a, vec![1]), Op::Up(b, vec![2]), Op::Up(c, vec![3]));
            let (da, db, dc) = (Op::Del(a), Op::Del(b), Op::Del(c));
            let same: Vec<(Vec<Op>, Vec<Op>)> = vec![
                (vec![ua.clone(), ub.clone()], vec![ub.clone(), ua.clone()]),
                (vec![ua.clone()], vec![ua.clone(), ub.clone(), db.clone()]),
                (vec![ua.clone()], vec![ub.clone(), ua.clone(), db.clone()]),
                (vec![ua.clone()], vec![ua.clone(), db.clone()]),
                (vec![ua.clone()], vec![ua.clone(), ua.clone()]),
                (vec![ua.clone(), ub.clone()], vec![ua.clone(), ub.clone(), dc.clone(), ub.clone()]),
                (vec![ua.clone(), ub.clone()], vec![uc.clone(), ub.clone(), ua.clone(), dc.clone(), dc.clone()]),
                (vec![ub.clone(), uc.clone()], vec![ua.clone(), uc.clone(), ub.clone(), da.clone(), da.clone()]),
                (vec![uc.clone(), ua.clone(), ub.clone()], vec![ub.clone(), ua.clone(), uc.clone()]),
                (vec![], vec![ua.clone(), ub.clone(), da.clone(), db.clone(), da.clone()]),
            ];
            for (x, y) in same {
                if c == a && (x.contains(&uc) || y.contains(&uc) || y.contains(&dc)) {
                    continue;
                }
                if root(&x)? != root(&y)? {
                    return Err(format!("depth {d}: [{}] and [{}] give different roots", shows(&x), shows(&y)));
                }
                acc.trace(2);
            }
            Ok(())
        },
        |i| format!("depth {}, pattern {}", i / 3, i % 3),
    ));
    let fams = medium();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    let max = t.pick(40usize, 90);
    v.push(Space::new(
        format!("no-ops, undo and commutation in trees of up to {max} entries of {} families", fams.len()),
        fams.len() as u64 * max as u64,
        move |i, acc| {
            let (f, n) = (i as usize % fams.len(), max - i as usize / fams.len());
            if n > fams[f].1 - 3 {
                return Ok(());
            }
            let (l0, ops) = medium_tree(f, n)?;
            acc.state(&(f, n, l0.state()));
            let r0 = l0.t().root();
            let value = |k: &H| -> Vec<u8> {
                let key = fams[f].2;
                if *k == key(n / 2) {
                    return b"overwritten".to_vec();
                }
                let i = (0..n + 3).find(|i| key((i * 5 + 2) % (n + 3)) == *k).unwrap();
                vec![i as u8, 1]
            };
            let run = |l: &mut Live, o: &Op| -> Res {
                acc.beat();
                acc.step(1);
                l.run(o).map_err(|e| format!("{n} entries: {} failed: {}", show(o), e))
            };
            let root_after = |os: &[&Op]| -> Result<H, String> {
                let mut l = l0.fork()?;
                for o in os {
                    run(&mut l, o)?;
                }
                acc.trace(1);
                Ok(l.t().root())
            };
            if (n + 3) % 5 != 0 {
                // (with 5 a divisor the keys repeat)
                for k in l0.model.keys() {
                    if root_after(&[&Op::Up(*k, value(k))])? != r0 {
                        return Err(format!("{n} entries: re-applying the value of {} changed the root", hx(k)));
                    }
                }
            }
            for (x, a) in ops.iter().enumerate() {
                let ka = match a {
                    Op::Up(k, _) | Op::Del(k) => *k,
                    Op::Reload => continue,
                };
                let ra = root_after(&[a])?;
                if !l0.model.contains_key(&ka) {
                    if root_after(&[&Op::Up(ka, b"x".to_vec()), &Op::Del(ka)])? != r0 {
                        return Err(format!("{n} entries: inserting and deleting {} does not restore the root", hx(&ka)));
                    }
                    for o in [Op::Del(ka), Op::Up(ka, vec![])] {
                        if root_after(&[&o])? != r0 {
                            return Err(format!("{n} entries: {} changed the root", show(&o)));
                        }
                    }
                } else if root_after(&[&Op::Del(ka), &Op::Del(ka)])? != root_after(&[&Op::Del(ka)])? {
                    return Err(format!("{n} entries: deleting {} twice changes the outcome", hx(&ka)));
                }
                if root_after(&[a, a])? != ra {
                    return Err(format!("{n} entries: {} twice changes the outcome", show(a)));
                }
                for b in &ops[x + 1..] {
                    match b {
                        Op::Up(k, _) | Op::Del(k) if *k != ka => {}
                        _ => continue,
                    }
                    if root_after(&[a, b])? != root_after(&[b, a])? {
                        return Err(format!("{n} entries: {} and {} do not commute", show(a), show(b)));
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{}, {} entries", names[i as usize % names.len()], max - i as usize / names.len()),
    ));
    v
}

// ------------------------------------------------------------------ C06 (storage errors)

/// After a failed operation: before- or after-state, fully stored. Returns the resulting model.
pub fn settle(l: &Live, before: &SMap, after: &SMap) -> Result<SMap, String> {
    let r = l.t().root();
    let m = if r == sp_root(before) {
        before
    } else if r == sp_root(after) {
        after
    } else {
        return Err(format!("root {} is neither the root before nor after the operation", hx(&r)));
    };
    l.stored_all(m).map_err(|e| format!("tree reports root {}, but {e}", hx(&r)))?;
    Ok(m.clone())
}

pub fn c06(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let nk = if deep { 2 } else { 3 };
        let vals = if deep { 1 } else { 2 };
        let max = t.pick(
            if deep {
                2
            } else if name == "byte" {
                3
            } else {
                4
            },
            if deep { 3 } else { 5 },
        );
        let mut al = alphabet(&keys[..nk], vals, false, false);
        if name == "edge" || name == "mid" {
            al = alphabet(&[keys[0], keys[2]], 1, false, false);
        }
        let hist_al = al.clone();
        let nh = count_upto(hist_al.len() as u64, max);
        let mut ops = al.clone();
        ops.push(Op::Reload);
        ops.push(Op::Up(keys[0], vec![]));
        let nops = ops.len() as u64;
        let (h2, o2) = (hist_al.clone(), ops.clone());
        let two_upto = t.pick(2, 4);
        v.push(Space::new(
            format!("every failing call of every operation after every history of length <= {max}/{name}"),
            nh * nops,
            move |i, acc| {
                let h = seq_upto(&hist_al, i / nops, max);
                let op = &ops[(i % nops) as usize];
                let two = !deep && h.len() <= two_upto;
                let dry = {
                    let mut l = Live::replay(&h)?;
                    if !acc.state(&(name, "distinct", two, i % nops, l.full())) {
                        return Ok(()); // this (tree, store) state was explored from another history
                    }
                    l.st.reset_calls();
                    l.apply(op)?;
                    l.st.calls()
                };
                let mut after = SMap::new();
                for o in &h {
                    model_apply(&mut after, o);
                }
                let before = after.clone();
                model_apply(&mut after, op);
                // deep paths make hundreds of calls: follow up on all of them with a few operations
                let follow: Vec<Op> = if deep { vec![op.clone(), al[1].clone(), Op::Reload] } else { ops.clone() };
                for c in 1..=dry {
                    for mode in [Mode::Before, Mode::After, Mode::Down] {
                        acc.beat();
                        let fail = |l: &mut Live| -> Result<SMap, String> {
                            l.st.arm(c, mode);
                            let r = guard(|| l.run(op)).map_err(|p| format!("panicked: {p}"))?;
                            let hit = l.st.disarm();
                            match r {
                                Ok(()) if hit => return Err("reported success although a storage call failed".into()),
                                Ok(()) => return Ok(after.clone()), // the call was not made this time
                                Err(e) if !carries(&e, c) => return Err(format!("reported {e}, which does not carry the failure")),
                                Err(_) => {}
                            }
                            settle(l, &before, &after)
                        };
                        let ctx = |e: String| {
                            format!("[{}]; then {} with storage call {c} of {dry} failing ({mode:?}): {e}", shows(&h), show(op))
                        };
                        for f in &follow {
                            let mut l = Live::replay(&h)?;
                            let m = fail(&mut l).map_err(ctx)?;
                            l.model = m;
                            acc.eval(1);
                            acc.state(&(name, &shows(&h), show(op), c, mode as u8, l.state()));
                            l.apply(f)
                                .and_then(|_| l.check())
                                .and_then(|_| l.stored_all(&l.model.clone()))
                                .map_err(|e| ctx(format!("then {}: {e}", show(f))))?;
                            // the same again, in the tree at hand and in one loaded anew
                            let mut k = if deep { None } else { Some(l.fork()?) };
                            l.apply(op).and_then(|_| l.check()).map_err(|e| ctx(format!("then {}; {}: {e}", show(f), show(op))))?;
                            if let Some(k) = &mut k {
                                k.apply(op)
                                    .and_then(|_| k.check())
                                    .map_err(|e| ctx(format!("then {}; reload; {}: {e}", show(f), show(op))))?;
                            }
                            acc.step(3);
                        }
                        if two {
                            // a second failure, in the retry
                            for c2 in 1..=dry + 2 {
                                let mut l = Live::replay(&h)?;
                                let m = fail(&mut l).map_err(ctx)?;
                                let mut a2 = m.clone();
                                model_apply(&mut a2, op);
                                l.st.arm(c2, Mode::Before);
                                let r =
                                    guard(|| l.run(op)).map_err(|p| ctx(format!("then the retry with call {c2} failing panicked: {p}")))?;
                                let hit = l.st.disarm();
                                if r.is_ok() == hit {
                                    return Err(ctx(format!("then the retry with call {c2} failing: outcome {r:?}")));
                                }
                                l.model = settle(&l, &m, &a2).map_err(|e| ctx(format!("then the retry with call {c2} failing: {e}")))?;
                                acc.eval(1);
                                acc.state(&(name, &shows(&h), show(op), c, mode as u8, c2));
                                l.apply(op)
                                    .and_then(|_| l.check())
                                    .map_err(|e| ctx(format!("then the retry with call {c2} failing, then a retry: {e}")))?;
                                if !hit {
                                    break;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
            move |i| {
                format!(
                    "[{}]; then {} with each storage call failing",
                    shows(&seq_upto(&h2, i / nops, max)),
                    show(&o2[(i % nops) as usize])
                )
            },
        ));
    }
    // histories of working and failing operations
    for (name, keys) in shapes() {
        if is_deep(name) || name == "byte" {
            continue;
        }
        let al = alphabet(&keys[..3], 1, false, false);
        let at = t.pick(vec![0u64, 1, 2, 3, 5], vec![0u64, 1, 2, 3, 4, 5, 6, 7, 9, 11]);
        let b = (al.len() * at.len()) as u64;
        let len = 4;
        let (al2, at2) = (al.clone(), at.clone());
        let show_at = move |i: u64| {
            digits(i, b, len)
                .into_iter()
                .map(|x| {
                    format!(
                        "{}{}",
                        show(&al2[x % al2.len()]),
                        match at2[x / al2.len()] {
                            0 => String::new(),
                            c => format!(" with call {c} failing"),
                        }
                    )
                })
                .collect::<Vec<_>>()
                .join("; ")
        };
        v.push(Space::new(
            format!("every history of length {len}, each operation working or failing at one of its calls/{name}"),
            b.pow(len as u32),
            {
                let show_at = show_at.clone();
                move |i, acc| {
                    let mut l = Live::new();
                    for (p, x) in digits(i, b, len).into_iter().enumerate() {
                        let ctx = |e: String| format!("[{}], step {p}: {e}", show_at(i));
                        let (op, c) = (&al[x % al.len()], at[x / al.len()]);
                        let before = l.model.clone();
                        let mut after = before.clone();
                        model_apply(&mut after, op);
                        if c > 0 {
                            l.st.arm(c, [Mode::Before, Mode::After, Mode::Down][p % 3]);
                        }
                        let r = guard(|| l.run(op)).map_err(|p| ctx(format!("panicked: {p}")))?;
                        let hit = l.st.disarm();
                        match r {
                            Ok(()) if hit => return Err(ctx("reported success although a storage call failed".into())),
                            Ok(()) => {
                                l.model = after;
                                l.check().map_err(ctx)?;
                            }
                            Err(e) if !hit || !carries(&e, c) => return Err(ctx(format!("reported {e}"))),
                            Err(_) => {
                                acc.eval(1);
                                l.model = settle(&l, &before, &after).map_err(ctx)?;
                            }
                        }
                        acc.step(1);
                    }
                    acc.state(&(name, l.full()));
                    l.stored_all(&l.model.clone()).map_err(|e| format!("[{}]: {e}", show_at(i)))?;
                    Ok(())
                }
            },
            show_at,
        ));
    }
    // larger trees
    let fams = medium();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    let max = t.pick(18usize, 45);
    v.push(Space::new(
        format!("every failing call of operations in trees of up to {max} entries of {} families", fams.len()),
        fams.len() as u64 * max as u64,
        move |i, acc| {
            let (f, n) = (i as usize % fams.len(), max - i as usize / fams.len());
            if n > fams[f].1 - 3 {
                return Ok(());
            }
            let (l0, ops) = medium_tree(f, n)?;
            let before = l0.model.clone();
            for (x, op) in ops.iter().enumerate() {
                let mut after = before.clone();
                model_apply(&mut after, op);
                let dry = {
                    let mut l = l0.fork()?;
                    l.st.reset_calls();
                    l.run(op)?;
                    l.st.calls()
                };
                // deep chains: the first and last calls, and every 16th
                for c in (1..=dry).filter(|c| dry < 100 || *c < 20 || c + 20 > dry || c % 16 == 0) {
                    for mode in [Mode::Before, Mode::After, Mode::Down] {
                        acc.beat();
                        acc.eval(1);
                        acc.state(&(f, n, x, c, mode as u8));
                        let ctx = |e: String| format!("{n} entries; {} with storage call {c} of {dry} failing ({mode:?}): {e}", show(op));
                        let mut l = l0.fork()?;
                        l.st.arm(c, mode);
                        let r = guard(|| l.run(op)).map_err(|p| ctx(format!("panicked: {p}")))?;
                        let hit = l.st.disarm();
                        match r {
                            Ok(()) if hit => return Err(ctx("reported success although a storage call failed".into())),
                            Ok(()) => continue,
                            Err(e) if !carries(&e, c) => return Err(ctx(format!("reported {e}, which does not carry the failure"))),
                            Err(_) => {}
                        }
                        l.model = settle(&l, &before, &after).map_err(ctx)?;
                        let next = &ops[(x * 7 + c as usize) % ops.len()];
                        l.apply(next).and_then(|_| l.check()).map_err(|e| ctx(format!("then {}: {e}", show(next))))?;
                        let mut k = l.fork()?;
                        for (l, how) in [(&mut l, ""), (&mut k, " reload;")] {
                            l.apply(op)
                                .and_then(|_| l.check())
                                .and_then(|_| l.stored_all(&l.model.clone()))
                                .map_err(|e| ctx(format!("then {};{how} {}: {e}", show(next), show(op))))?;
                        }
                        acc.step(3);
                    }
                }
            }
            Ok(())
        },
        move |i| {
            format!(
                "{}, {} entries, each operation with each storage call failing",
                names[i as usize % names.len()],
                max - i as usize / names.len()
            )
        },
    ));
    v
}

// ------------------------------------------------------------------ C07 (lost and undecodable nodes)

pub fn c07(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let nk = if deep { 3 } else { 4 };
        let vals = 1;
        let max = t.pick(if deep { 3 } else { 5 }, if deep { 4 } else { 6 });
        let al = alphabet(&keys[..nk], vals, false, false);
        let nh = count_upto(al.len() as u64, max);
        let al2 = al.clone();
        // every invalid marker after short histories, a few after the longer ones
        let all: Vec<Option<u8>> = [None].into_iter().chain((2u8..=255).map(Some)).collect();
        let some: Vec<Option<u8>> = [None].into_iter().chain([2u8, 3, 0x10, 0x20, 0x21, 0x80, 0x81, 0xff].into_iter().map(Some)).collect();
        let all_upto = match (deep, t.thorough()) {
            (true, false) => 1,
            (true, true) | (false, false) => 2,
            (false, true) => 3,
        };
        v.push(Space::new(
            format!("every lost or undecodable node x every operation after histories of length <= {max}/{name}"),
            nh,
            move |i, acc| {
                let h = seq_upto(&al, i, max);
                let l0 = Live::replay(&h)?;
                if !acc.state(&(name, "distinct", h.len() <= all_upto, l0.full())) {
                    return Ok(()); // this (tree, store) state was explored from another history
                }
                let reach: Vec<H> = sp_nodes(&l0.model).into_iter().map(|x| x.0).collect();
                let mut entries: Vec<H> = l0.st.snapshot().keys().cloned().collect();
                if deep {
                    // hundreds of single-child levels: all reachable ones near the ends, every 8th between
                    entries.retain(|k| reach.contains(k));
                    let n = entries.len();
                    let order: HashMap<H, usize> = reach.iter().enumerate().map(|(i, k)| (*k, i)).collect();
                    entries.retain(|k| {
                        let p = order[k];
                        p < 8 || p + 8 > n || p % 8 == 0
                    });
                }
                let mut ops = al.clone();
                ops.push(Op::Reload);
                let markers = if h.len() <= all_upto { &all } else { &some };
                for e in &entries {
                    for m in markers {
                        let damage = |l: &Live| -> Prim {
                            let p = l.st.lose(e).unwrap();
                            if let Some(m) = m {
                                l.st.put(e, (p.0, *m, p.2, p.3));
                            }
                            p
                        };
                        for (oi, op) in ops.iter().enumerate() {
                            acc.beat();
                            let mut l = Live::replay(&h)?;
                            let saved = damage(&l);
                            let r0 = l.t().root();
                            let ctx = |x: String| {
                                format!("[{}], node {} {}: {x}", shows(&h), hx(e), m.map_or("lost".into(), |m| format!("with marker {m}")))
                            };
                            acc.eval(1);
                            acc.state(&(name, l0.state(), e, m, oi));
                            let mut model = l0.model.clone();
                            let r = guard(|| l.run(op)).map_err(|p| ctx(format!("{} panicked: {p}", show(op))))?;
                            match &r {
                                Err(_) => {
                                    if l.t().root() != r0 {
                                        return Err(ctx(format!("{} failed but changed the root", show(op))));
                                    }
                                }
                                Ok(()) => {
                                    model_apply(&mut model, op);
                                    if l.t().root() != sp_root(&model) {
                                        return Err(ctx(format!("{} succeeded with a wrong root", show(op))));
                                    }
                                }
                            }
                            // a second operation on the damaged tree
                            let op2 = &ops[(oi * 5 + 2) % ops.len()];
                            let r1 = l.t().root();
                            let rr = guard(|| l.run(op2)).map_err(|p| ctx(format!("{}, then {} panicked: {p}", show(op), show(op2))))?;
                            match rr {
                                Err(_) => {
                                    if l.t().root() != r1 {
                                        return Err(ctx(format!("{}, then {} failed but changed the root", show(op), show(op2))));
                                    }
                                }
                                Ok(()) => {
                                    model_apply(&mut model, op2);
                                    if l.t().root() != sp_root(&model) {
                                        return Err(ctx(format!("{}, then {} succeeded with a wrong root", show(op), show(op2))));
                                    }
                                }
                            }
                            // once the node is restored, the refused operation works
                            if r.is_err() {
                                let mut l = Live::replay(&h)?;
                                damage(&l);
                                let _ = l.run(op);
                                l.st.put(e, saved);
                                l.apply(op)
                                    .and_then(|_| l.check())
                                    .map_err(|x| ctx(format!("{} failed; after restoring the node: {x}", show(op))))?;
                            }
                        }
                    }
                }
                Ok(())
            },
            move |i| format!("[{}], each stored node lost or with an invalid marker, each operation", shows(&seq_upto(&al2, i, max))),
        ));
        if deep {
            continue;
        }
        // two damaged nodes, three operations in a row
        let max = t.pick(3, 4);
        let al = alphabet(&keys[..nk], 1, false, true);
        let al2 = al.clone();
        v.push(Space::new(
            format!("every pair of lost or undecodable nodes x pairs of operations after histories of length <= {max}/{name}"),
            count_upto(al.len() as u64, max),
            move |i, acc| {
                let h = seq_upto(&al, i, max);
                let l0 = Live::replay(&h)?;
                if !acc.state(&(name, "pairs", l0.full())) {
                    return Ok(());
                }
                let entries: Vec<H> = l0.st.snapshot().keys().cloned().collect();
                for (x, a) in entries.iter().enumerate() {
                    for b in &entries[x + 1..] {
                        for m in [None, Some(0x21u8)] {
                            for (oi, op) in al.iter().enumerate() {
                                acc.beat();
                                acc.eval(1);
                                acc.state(&(name, "pair", l0.full(), a, b, m, oi));
                                let mut l = Live::replay(&h)?;
                                l.st.lose(a);
                                let p = l.st.lose(b).unwrap();
                                if let Some(m) = m {
                                    l.st.put(b, (p.0, m, p.2, p.3));
                                }
                                let mut model = l0.model.clone();
                                for o in [op, &al[(oi * 3 + 1) % al.len()], op] {
                                    let r0 = l.t().root();
                                    let ctx = |x: String| {
                                        format!(
                                            "[{}], nodes {} and {} {}: {x}",
                                            shows(&h),
                                            hx(a),
                                            hx(b),
                                            m.map_or("lost".into(), |m| format!("lost, the second with marker {m}"))
                                        )
                                    };
                                    match guard(|| l.run(o)).map_err(|p| ctx(format!("{} panicked: {p}", show(o))))? {
                                        Err(_) if l.t().root() != r0 => {
                                            return Err(ctx(format!("{} failed but changed the root", show(o))))
                                        }
                                        Err(_) => {}
                                        Ok(()) => {
                                            model_apply(&mut model, o);
                                            if l.t().root() != sp_root(&model) {
                                                return Err(ctx(format!("{} succeeded with a wrong root", show(o))));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
            move |i| format!("[{}], each pair of stored nodes damaged, operations in a row", shows(&seq_upto(&al2, i, max))),
        ));
    }
    // larger trees
    let fams = medium();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    let max = t.pick(24usize, 60);
    v.push(Space::new(
        format!("every lost or undecodable node of trees of up to {max} entries of {} families x operations", fams.len()),
        fams.len() as u64 * max as u64,
        move |i, acc| {
            let (f, n) = (i as usize % fams.len(), max - i as usize / fams.len());
            if n > fams[f].1 - 3 {
                return Ok(());
            }
            let (l0, ops) = medium_tree(f, n)?;
            let r0 = l0.t().root();
            // the root itself is in the tree's memory, but may be lost all the same
            for (y, (e, p)) in sp_nodes(&l0.model).into_iter().enumerate() {
                for m in [None, Some([2u8, 0x21, 0xff][y % 3])] {
                    for (x, op) in ops.iter().enumerate() {
                        acc.beat();
                        acc.eval(1);
                        acc.state(&(f, n, e, m, x));
                        let ctx = |x: String| {
                            format!("{n} entries, node {} {}: {x}", hx(&e), m.map_or("lost".into(), |m| format!("with marker {m}")))
                        };
                        let mut l = l0.fork()?;
                        l.st.lose(&e);
                        if let Some(m) = m {
                            l.st.put(&e, (p.0, m, p.2, p.3));
                        }
                        let mut model = l0.model.clone();
                        let r = guard(|| l.run(op)).map_err(|p| ctx(format!("{} panicked: {p}", show(op))))?;
                        match r {
                            Err(_) if l.t().root() != r0 => return Err(ctx(format!("{} failed but changed the root", show(op)))),
                            Err(_) => {
                                // once the node is restored, the refused operation works
                                l.st.put(&e, p);
                                l.apply(op)
                                    .and_then(|_| l.check())
                                    .map_err(|x| ctx(format!("{} failed; after restoring the node: {x}", show(op))))?;
                            }
                            Ok(()) => {
                                model_apply(&mut model, op);
                                if l.t().root() != sp_root(&model) {
                                    return Err(ctx(format!("{} succeeded with a wrong root", show(op))));
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| {
            format!(
                "{}, {} entries, each node lost or with an invalid marker",
                names[i as usize % names.len()],
                max - i as usize / names.len()
            )
        },
    ));
    v
}
