//! C28-C30: errors that tell their cause, interrupted operations, the chain of subtrees.
use crate::engine::*;
use crate::p_binary::{self, data, filled, same_root};
use crate::p_sparse::{alphabet, count_upto, is_deep, medium, medium_tree, seq_upto, shapes, show, shows, Live, Op};
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::common::Subtree;
use fuel_merkle::{binary, sparse, sum};
use std::collections::{BTreeMap, HashSet, VecDeque};

// ------------------------------------------------------------------ C28

/// The text of an error, if its type is a standard error. (Found out here and not by the type
/// checker, so that an error type that stops being printable is a violation and not a failed build.)
struct Text<'a, T>(&'a T);
#[allow(dead_code)]
trait ViaError {
    fn text(&self) -> Option<String>;
}
impl<T: std::error::Error> ViaError for Text<'_, T> {
    fn text(&self) -> Option<String> {
        Some(self.0.to_string())
    }
}
#[allow(dead_code)]
trait ViaNothing {
    fn text(&self) -> Option<String>;
}
impl<T> ViaNothing for &Text<'_, T> {
    fn text(&self) -> Option<String> {
        None
    }
}
type BErr = binary::MerkleTreeError<Fault>;
type SErr = sparse::MerkleTreeError<Fault>;
fn btext(e: &BErr) -> Result<String, String> {
    (&Text(e)).text().ok_or_else(|| "errors of binary trees are not standard errors".to_string())
}
fn stext(e: &SErr) -> Result<String, String> {
    (&Text(e)).text().ok_or_else(|| "errors of sparse trees are not standard errors".to_string())
}
/// does the text contain this number, standing alone?
fn names_number(text: &str, n: u64) -> bool {
    text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())
}
fn names_key(text: &str, k: &H) -> bool {
    let hex: String = k.iter().map(|b| format!("{b:02x}")).collect();
    text.to_lowercase().contains(&hex) || text.contains(&format!("{:?}", k))
}
enum Cause {
    Lost(H),
    Marker(u8),
    Call(u64),
}
fn sparse_error(e: &SErr, c: &Cause) -> Res {
    let text = stext(e)?;
    let debug = format!("{:?}", e);
    let kind = match (e, c) {
        (SErr::LoadError(_), Cause::Lost(_)) | (SErr::ChildError(_), _) => true,
        (SErr::DeserializeError(_), Cause::Marker(_)) | (SErr::StorageError(_), Cause::Call(_)) => true,
        _ => false,
    };
    let named = |t: &str| match c {
        Cause::Lost(k) => names_key(t, k),
        Cause::Marker(m) => names_number(t, *m as u64),
        Cause::Call(c) => carries(t, *c),
    };
    let what = match c {
        Cause::Lost(k) => format!("a missing node {}", hx(k)),
        Cause::Marker(m) => format!("a node with marker {m}"),
        Cause::Call(c) => format!("storage call {c} failing"),
    };
    if !kind {
        return Err(format!("{what} was reported as an error of another kind: {debug}"));
    }
    if !named(&debug) {
        return Err(format!("{what} was reported as {debug}, which does not name it"));
    }
    if !named(&text) {
        return Err(format!("{what} was reported in the words {text:?}, which do not name it"));
    }
    Ok(())
}
fn binary_error(e: &BErr, want: &BErr) -> Res {
    let text = btext(e)?;
    let (a, b) = (format!("{:?}", e), format!("{:?}", want));
    if a != b {
        return Err(format!("reported {a}, expected {b}"));
    }
    let ok = match want {
        BErr::InvalidProofIndex(n) | BErr::LoadError(n) => names_number(&text, *n),
        BErr::StorageError(f) => carries(&text, f.0),
    };
    if !ok {
        return Err(format!("{a} reads {text:?}, which does not name the cause"));
    }
    Ok(())
}
pub fn c28(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(150u64, 400);
    v.push(Space::new(
        format!("binary: invalid indices, missing nodes and failing calls at every size up to {max}"),
        max + 1,
        move |i, acc| {
            let n = max - i;
            let (st, _) = filled(1, n);
            let t = p_binary::Tree::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
            let mut bad: Vec<u64> = (n..n + 4).collect();
            bad.extend((0..64).flat_map(|b| [1u64 << b, (1 << b) - 1, (1u64 << b).wrapping_neg(), (1 << b) + n]));
            bad.retain(|i| *i >= n);
            for i in bad {
                acc.beat();
                acc.eval(1);
                acc.state(&("index", n, i));
                match t.prove(i) {
                    Ok(_) => return Err(format!("prove({i}) of {n} leaves succeeded")),
                    Err(e) => binary_error(&e, &BErr::InvalidProofIndex(i)).map_err(|e| format!("prove({i}) of {n} leaves: {e}"))?,
                }
            }
            let keys: Vec<u64> = st.snapshot().keys().cloned().collect();
            for k in &keys {
                acc.beat();
                let saved = st.lose(k).unwrap();
                for i in (0..n).step_by(1 + n as usize / 40) {
                    acc.eval(1);
                    acc.state(&("lost", n, k, i));
                    if let Err(e) = t.prove(i) {
                        binary_error(&e, &BErr::LoadError(*k)).map_err(|e| format!("{n} leaves, node {k} lost, prove({i}): {e}"))?;
                    }
                }
                for c in (0..=n).step_by(1 + n as usize / 40) {
                    if let Err(e) = p_binary::Tree::load(st.clone(), c) {
                        binary_error(&e, &BErr::LoadError(*k)).map_err(|e| format!("{n} leaves, node {k} lost, load({c}): {e}"))?;
                    }
                }
                st.put(k, saved);
            }
            for c in 1..=20 {
                for what in 0..3 {
                    acc.eval(1);
                    let mut t = p_binary::Tree::load(st.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                    st.arm(c, Mode::Before);
                    let r = match what {
                        0 => t.push(b"x").err(),
                        1 => t.prove(n / 2).err(),
                        _ => p_binary::Tree::load(st.clone(), n).err(),
                    };
                    if st.disarm() {
                        acc.state(&("call", n, c, what));
                        let e = r.ok_or(format!("{n} leaves: call {c} of operation {what} failed and success was reported"))?;
                        binary_error(&e, &BErr::StorageError(Fault(c)))
                            .map_err(|e| format!("{n} leaves, call {c} of operation {what} failing: {e}"))?;
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves", max - i),
    ));
    // counts that were never reached
    v.push(Space::new(
        "binary: loads at counts with missing peaks, over 64 bits",
        64,
        |b, acc| {
            for n in [1u64 << b, (1u64 << b) - 1, (1u64 << b) + 1, (1u64 << b) + (1u64 << (b / 2))] {
                for lost in 0..64u64 {
                    if n >> 63 == 1 || n >> lost & 1 == 0 {
                        continue;
                    }
                    // all peaks but one
                    let st = p_binary::Store::new();
                    let mut a = 0u64;
                    let mut gone = 0;
                    for h in (0..64).rev() {
                        if n >> h & 1 == 1 {
                            let key = (2u128 * a as u128 + (1u128 << h) - 1) as u64;
                            if h == lost {
                                gone = key;
                            } else {
                                st.put(&key, (key, virt_digest(key)));
                            }
                            a += 1 << h;
                        }
                    }
                    acc.eval(1);
                    acc.state(&("peaks", n, lost));
                    match p_binary::Tree::load(st, n) {
                        Ok(_) => return Err(format!("load({n}) succeeded without the peak {gone}")),
                        Err(e) => {
                            binary_error(&e, &BErr::LoadError(gone)).map_err(|e| format!("load({n}) without the peak {gone}: {e}"))?
                        }
                    }
                }
            }
            Ok(())
        },
        |b| format!("counts around 2^{b}"),
    ));
    let fams = medium();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    let max = t.pick(14usize, 40);
    v.push(Space::new(
        format!("sparse: missing and undecodable nodes and failing calls, trees of up to {max} entries of {} families", fams.len()),
        (fams.len() * max) as u64,
        move |i, acc| {
            let (f, n) = (i as usize % fams.len(), max - i as usize / fams.len());
            if n > fams[f].1 - 3 {
                return Ok(());
            }
            let (l0, ops) = medium_tree(f, n)?;
            let run = |l: &mut Live, op: &Op| -> Result<(), SErr> {
                let root = l.t().root();
                let t = l.tree.as_mut().unwrap();
                match op {
                    Op::Up(k, v) => t.update(k, v),
                    Op::Del(k) => t.delete(k),
                    Op::Reload => sparse::MerkleTree::<STab, Mem<STab>>::load(l.st.clone(), &root).map(|_| ()),
                }
            };
            for (y, (e, p)) in sp_nodes(&l0.model).into_iter().enumerate() {
                for m in [None, Some([2u8, 0x21, 0xff, 0x80][y % 4])] {
                    for (x, op) in ops.iter().enumerate() {
                        acc.beat();
                        acc.eval(1);
                        let mut l = l0.fork()?;
                        l.st.lose(&e);
                        let cause = match m {
                            None => Cause::Lost(e),
                            Some(m) => {
                                l.st.put(&e, (p.0, m, p.2, p.3));
                                Cause::Marker(m)
                            }
                        };
                        if let Err(err) = run(&mut l, op) {
                            acc.state(&(f, n, y, m, x));
                            sparse_error(&err, &cause).map_err(|e| format!("{n} entries, {}: {e}", show(op)))?;
                        }
                    }
                }
            }
            for (x, op) in ops.iter().enumerate() {
                for c in 1.. {
                    acc.beat();
                    acc.eval(1);
                    let mut l = l0.fork()?;
                    l.st.arm(c, Mode::Before);
                    let r = run(&mut l, op);
                    if !l.st.disarm() {
                        break;
                    }
                    acc.state(&(f, n, "call", c, x));
                    match r {
                        Ok(()) => return Err(format!("{n} entries, {}: call {c} failed and success was reported", show(op))),
                        Err(e) => sparse_error(&e, &Cause::Call(c)).map_err(|e| format!("{n} entries, {}: {e}", show(op)))?,
                    }
                }
            }
            // roots that are not there
            for k in l0.model.keys().cloned().filter(|k| *k != ZERO).chain([
                [0xff; 32],
                sha(&[b"no such root"]),
                flip(&l0.t().root(), 255),
                flip(&ZERO, 255),
            ]) {
                acc.eval(1);
                match sparse::MerkleTree::<STab, Mem<STab>>::load(l0.st.clone(), &k) {
                    Ok(_) => return Err(format!("load({}) succeeded", hx(&k))),
                    Err(e) => sparse_error(&e, &Cause::Lost(k)).map_err(|e| format!("load: {e}"))?,
                }
            }
            Ok(())
        },
        move |i| format!("{}, {} entries", names[i as usize % names.len()], max - i as usize / names.len()),
    ));
    v.push(Space::new(
        "sparse: every invalid marker of a lone root and of a child; sum: its error",
        256,
        |m, acc| {
            acc.eval(1);
            acc.state(&("marker", m));
            for i in [0u64, 1, m, u64::MAX] {
                let e = sum::MerkleTreeError::InvalidProofIndex(i);
                let text = (&Text(&e)).text().ok_or("errors of sum trees are not standard errors")?;
                if !names_number(&text, i) {
                    return Err(format!("{e:?} reads {text:?}"));
                }
            }
            if m < 2 {
                return Ok(());
            }
            let m = m as u8;
            let l = Live::replay(&[Op::Up([7; 32], b"a".to_vec())])?;
            let root = l.t().root();
            let p = l.st.lose(&root).unwrap();
            l.st.put(&root, (p.0, m, p.2, p.3));
            match sparse::MerkleTree::<STab, Mem<STab>>::load(l.st.clone(), &root) {
                Ok(_) => return Err(format!("a root with marker {m} was loaded")),
                Err(e) => sparse_error(&e, &Cause::Marker(m))?,
            }
            let mut l = Live::replay(&[Op::Up([7; 32], b"a".to_vec()), Op::Up([0xf7; 32], b"b".to_vec())])?;
            let leaf = sp_leaf(&[7; 32], &sha(&[b"a"]));
            let p = l.st.lose(&leaf).ok_or("the leaf is not stored")?;
            l.st.put(&leaf, (p.0, m, p.2, p.3));
            match l.tree.as_mut().unwrap().update(&[7; 32], b"c") {
                Ok(_) => return Err(format!("a child with marker {m} was accepted")),
                Err(e) => sparse_error(&e, &Cause::Marker(m)),
            }
        },
        |m| format!("marker {m}"),
    ));
    v
}

// ------------------------------------------------------------------ C29

type SStore = BTreeMap<H, Prim>;
fn intact(st: &SStore, m: &SMap) -> bool {
    sp_nodes(m).iter().all(|(h, p)| st.get(h) == Some(p))
}
/// Was the root of `m` added to `st`, giving `s`, before the rest of its tree?
fn hollow(st: &SStore, s: &SStore, m: &SMap) -> Res {
    let r = sp_root(m);
    if !st.contains_key(&r) && s.contains_key(&r) && !intact(s, m) {
        return Err(format!("the new root {} is in the store but its tree is not whole", hx(&r)));
    }
    Ok(())
}
fn with(st: &SStore, ws: &[(H, Option<Prim>)], keep: impl Fn(usize) -> bool) -> SStore {
    let mut s = st.clone();
    for (i, (k, v)) in ws.iter().enumerate() {
        if keep(i) {
            match v {
                Some(v) => drop(s.insert(*k, *v)),
                None => drop(s.remove(k)),
            }
        }
    }
    s
}
/// A new process on this store: load at the root of m.
fn revive(st: &SStore, m: &SMap) -> Result<Live, String> {
    let s = Mem::<STab>::from_map(st.clone());
    let root = sp_root(m);
    let tree = guard(|| sparse::MerkleTree::load(s.clone(), &root).map_err(|e| format!("{:?}", e)))
        .unwrap_or_else(|p| Err(format!("panic: {p}")))
        .map_err(|e| format!("load at {}: {e}", hx(&root)))?;
    if tree.root() != root {
        return Err(format!("loaded at {}, the tree reports {}", hx(&root), hx(&tree.root())));
    }
    Ok(Live { st: s, tree: Some(tree), model: m.clone() })
}
/// The masks of lost writes to try: all if there are few, else prefixes, suffixes, singles and pairs.
fn masks(n: usize, all_upto: usize) -> Vec<u64> {
    assert!(n < 64);
    if n <= all_upto {
        return (0..1u64 << n).collect();
    }
    let full = (1u64 << n) - 1;
    let mut v: Vec<u64> = (0..=n).flat_map(|p| [(1u64 << p) - 1, full & !((1u64 << p) - 1)]).collect();
    for i in 0..n {
        for j in i..n {
            v.push(full & !(1 << i) & !(1 << j));
            v.push(1 << i | 1 << j);
        }
    }
    v.sort();
    v.dedup();
    v
}
/// All the states of the store in which `op` on a tree of `before` may have been interrupted, each
/// with the maps that are then wholly stored. `ws` are the writes the whole operation makes.
fn interrupted(
    st: &SStore,
    ws: &[(H, Option<Prim>)],
    op: &Op,
    before: &SMap,
    after: &SMap,
    all_upto: usize,
) -> Result<Vec<(SStore, SMap)>, String> {
    let mut out = vec![];
    for p in 0..=ws.len() {
        let s = with(st, ws, |i| i < p);
        hollow(st, &s, after).map_err(|e| format!("after {p} of its {} writes, {e}", ws.len()))?;
        let (b, a) = (intact(&s, before), intact(&s, after));
        if !b && !a {
            return Err(format!(
                "after {p} of its {} writes, neither the tree before nor the tree after it is whole in the store",
                ws.len()
            ));
        }
        if p == 0 && !b {
            return Err("the tree before it is not whole in the store".into());
        }
        if p == ws.len() && !a {
            return Err("the tree after it is not whole in the store".into());
        }
        if b {
            out.push((s.clone(), before.clone()));
        }
        if a && before != after {
            out.push((s, after.clone()));
        }
    }
    // an update only adds nodes: whichever of its writes are lost, the tree before it is whole
    if matches!(op, Op::Up(_, v) if !v.is_empty()) && ws.len() < 64 {
        for mask in masks(ws.len(), all_upto) {
            let s = with(st, ws, |i| mask >> i & 1 == 1);
            if !intact(&s, before) {
                return Err(format!("with writes {mask:#b} of its {} made, the tree before it is not whole in the store", ws.len()));
            }
            out.push((s, before.clone()));
        }
    }
    Ok(out)
}
fn run_logged(l: &mut Live, op: &Op) -> Result<Vec<(H, Option<Prim>)>, String> {
    l.st.start_writes();
    l.apply(op)?;
    Ok(l.st.take_writes())
}
fn crash_bfs(name: String, alphabets: Vec<(String, Vec<Op>)>, cap: usize) -> Space<'static> {
    let names: Vec<String> = alphabets.iter().map(|a| a.0.clone()).collect();
    let title = name.clone();
    let mut s = Space::new(
        name,
        alphabets.len() as u64,
        move |i, acc| {
            let (shape, al) = &alphabets[i as usize];
            let mut seen: HashSet<u64> = HashSet::new();
            let mut how: Vec<(usize, String)> = vec![(0, "empty".into())];
            let mut queue: VecDeque<(usize, SStore, SMap)> = VecDeque::from([(0, SStore::new(), SMap::new())]);
            seen.insert(fp(&(SMap::new(), SStore::new())));
            let mut complete = true;
            let mut depth = 0u64;
            while let Some((id, st, m)) = queue.pop_front() {
                let trail = |how: &Vec<(usize, String)>| {
                    let (mut v, mut s) = (vec![], id);
                    while s != 0 {
                        v.push(how[s].1.clone());
                        s = how[s].0;
                    }
                    v.reverse();
                    v
                };
                depth = depth.max(trail(&how).len() as u64);
                if acc.timed_out() {
                    complete = false;
                    break;
                }
                for op in al {
                    acc.beat();
                    let ctx = |e: String| format!("[{}], then {}: {e}", trail(&how).join("; "), show(op));
                    let mut l = revive(&st, &m).map_err(ctx)?;
                    let ws = run_logged(&mut l, op).map_err(ctx)?;
                    l.check().map_err(ctx)?;
                    let after = l.model.clone();
                    for (s2, m2) in interrupted(&st, &ws, op, &m, &after, 6).map_err(ctx)? {
                        acc.eval(1);
                        acc.step(1);
                        let f = fp(&(&m2, &s2));
                        if seen.insert(f) {
                            acc.state(&(shape, f));
                            if how.len() < cap {
                                how.push((id, format!("{} (leaving {} entries, {} nodes)", show(op), m2.len(), s2.len())));
                                queue.push_back((how.len() - 1, s2, m2));
                            } else {
                                complete = false;
                            }
                        }
                    }
                }
                acc.trace(1);
                acc.flush();
            }
            acc.note(&format!("{title} {shape}: states"), seen.len() as u64);
            acc.note(&format!("{title} {shape}: longest shortest history"), depth);
            acc.note(&format!("{title} {shape}: fixpoint reached (1 = yes)"), complete as u64);
            Ok(())
        },
        move |i| format!("breadth-first search over interrupted operations, {}", names[i as usize]),
    );
    s.chunk = 1;
    s
}
pub fn c29(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // every interruption of every operation, restart, and so on to a fixpoint
    let mut als = vec![];
    for (name, keys) in shapes() {
        if !is_deep(name) && name != "byte" {
            als.push((format!("{name}, 3 keys x 1 value"), alphabet(&keys[..3], 1, false, false)));
            als.push((format!("{name}, 2 keys x 2 values"), alphabet(&keys[1..3], 2, false, false)));
            als.push((format!("{name}, 2 keys x 1 value"), alphabet(&keys[..2], 1, false, false)));
        }
    }
    v.push(crash_bfs("interrupted sparse operations".into(), als, t.pick(8_000, 300_000)));
    // after every short history
    for (name, keys) in shapes() {
        let deep = is_deep(name);
        let max = t.pick(if deep { 3 } else { 5 }, if deep { 4 } else { 6 });
        let nk = if deep { 3 } else { 4 };
        let al = alphabet(&keys[..nk], 1, false, false);
        let total = count_upto(al.len() as u64, max);
        let al2 = al.clone();
        v.push(Space::new(
            format!("every interruption of every operation after every history of length <= {max}/{name}"),
            total,
            move |i, acc| {
                let h = seq_upto(&al, i, max);
                let l0 = Live::replay(&h)?;
                if !acc.state(&(name, l0.full())) {
                    return Ok(());
                }
                let st = l0.st.snapshot();
                for (oi, op) in al.iter().enumerate() {
                    acc.beat();
                    let ctx = |e: String| format!("[{}], then {}: {e}", shows(&h), show(op));
                    let mut l = revive(&st, &l0.model).map_err(ctx)?;
                    let ws = run_logged(&mut l, op).map_err(ctx)?;
                    let after = l.model.clone();
                    let outs = if ws.len() < 64 {
                        interrupted(&st, &ws, op, &l0.model, &after, 8).map_err(ctx)?
                    } else {
                        // hundreds of writes: prefixes near the ends and every 16th
                        let mut o = vec![];
                        for p in (0..=ws.len()).filter(|p| *p < 6 || *p + 6 > ws.len() || p % 16 == 0) {
                            let s = with(&st, &ws, |i| i < p);
                            hollow(&st, &s, &after).map_err(|e| ctx(format!("after {p} of its {} writes, {e}", ws.len())))?;
                            hollow(&st, &s, &after).map_err(|e| ctx(format!("after {p} of its {} writes, {e}", ws.len())))?;
                            let (b, a) = (intact(&s, &l0.model), intact(&s, &after));
                            if !a && !b {
                                return Err(ctx(format!(
                                    "after {p} of its {} writes, neither the tree before nor the tree after it is whole in the store",
                                    ws.len()
                                )));
                            }
                            o.push((s, if b { l0.model.clone() } else { after.clone() }));
                        }
                        o
                    };
                    for (x, (s2, m2)) in outs.into_iter().enumerate() {
                        acc.eval(1);
                        acc.step(1);
                        // a new process repeats the operation, and makes another
                        let next = &al[(oi + x) % al.len()];
                        let mut l = revive(&s2, &m2).map_err(|e| ctx(format!("interrupted ({x}): {e}")))?;
                        l.apply(op)
                            .and_then(|_| l.check())
                            .and_then(|_| l.stored_all(&l.model.clone()))
                            .and_then(|_| l.apply(next))
                            .and_then(|_| l.check())
                            .and_then(|_| l.stored_all(&l.model.clone()))
                            .map_err(|e| ctx(format!("interrupted ({x}), repeated, then {}: {e}", show(next))))?;
                        acc.trace(1);
                    }
                }
                Ok(())
            },
            move |i| format!("[{}], every interruption of every operation", shows(&seq_upto(&al2, i, max))),
        ));
    }
    // larger trees
    let fams = medium();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    let max = t.pick(36usize, 80);
    v.push(Space::new(
        format!("every interruption of operations in trees of up to {max} entries of {} families", fams.len()),
        (fams.len() * max) as u64,
        move |i, acc| {
            let (f, n) = (i as usize % fams.len(), max - i as usize / fams.len());
            if n > fams[f].1 - 3 {
                return Ok(());
            }
            let (l0, ops) = medium_tree(f, n)?;
            let st = l0.st.snapshot();
            for (x, op) in ops.iter().enumerate() {
                let ctx = |e: String| format!("{n} entries, {}: {e}", show(op));
                let mut l = revive(&st, &l0.model).map_err(ctx)?;
                let ws = run_logged(&mut l, op).map_err(ctx)?;
                let after = l.model.clone();
                for p in (0..=ws.len()).filter(|p| ws.len() < 60 || *p < 6 || *p + 6 > ws.len() || p % 16 == 0) {
                    acc.beat();
                    acc.eval(1);
                    acc.step(1);
                    acc.state(&(f, n, x, p));
                    let s = with(&st, &ws, |i| i < p);
                    let (b, a) = (intact(&s, &l0.model), intact(&s, &after));
                    if !a && !b {
                        return Err(ctx(format!(
                            "after {p} of its {} writes, neither the tree before nor the tree after it is whole in the store",
                            ws.len()
                        )));
                    }
                    let mut l = revive(&s, if b { &l0.model } else { &after }).map_err(ctx)?;
                    l.apply(op)
                        .and_then(|_| l.check())
                        .and_then(|_| l.apply(&ops[(x * 5 + p) % ops.len()]))
                        .and_then(|_| l.check())
                        .map_err(|e| ctx(format!("interrupted after {p} writes, repeated: {e}")))?;
                    acc.trace(1);
                }
            }
            Ok(())
        },
        move |i| {
            format!(
                "{}, {} entries, every interruption of every operation",
                names[i as usize % names.len()],
                max - i as usize / names.len()
            )
        },
    ));
    // binary trees: any part of the writes of the last few pushes may be lost
    let max = t.pick(300u64, 800);
    v.push(Space::new(
        format!("any part of the writes of the last one to three pushes lost, trees up to {max} leaves"),
        max + 1,
        move |i, acc| {
            let n = max - i;
            let (st, m) = filled(1, n);
            for pushes in 1..=3u64 {
                let s0 = st.fork();
                let mut t = p_binary::Tree::load(s0.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
                s0.start_writes();
                for j in 0..pushes {
                    p_binary::push(&mut t, &data(3, n + j))?;
                }
                let ws = s0.take_writes();
                for mask in masks(ws.len(), 8) {
                    acc.beat();
                    acc.eval(1);
                    acc.step(1);
                    acc.state(&("binary", n, pushes, mask));
                    let ctx = |e: String| format!("{n} leaves, {pushes} pushes with writes {mask:#b} of {} made: {e}", ws.len());
                    let s2 = st.fork_with(ws.iter().enumerate().filter(|w| mask >> w.0 & 1 == 1).map(|w| w.1));
                    let mut t2 = p_binary::Tree::load(s2.clone(), n).map_err(|e| ctx(format!("load({n}): {:?}", e)))?;
                    let mut m2 = m.clone();
                    let all = n < 40 || mask == 0;
                    let look = |t: &p_binary::Tree, m: &BinModel, n: u64| -> Res {
                        if all {
                            return p_binary::whole(t, m, n, acc);
                        }
                        same_root(t, &m.root_at(n))?;
                        for i in [0, n / 2, n - 1] {
                            p_binary::same_proof(t, i, n, &m.root_at(n), &m.proof_at(i, n))?;
                        }
                        Ok(())
                    };
                    guard(|| look(&t2, &m2, n))
                        .unwrap_or_else(|p| Err(format!("panic: {p}")))
                        .map_err(|e| ctx(format!("loaded at {n}: {e}")))?;
                    // the count with the pushed leaves can be loaded only if they are wholly there
                    for j in 0..pushes {
                        if !(mask + 1).is_power_of_two() {
                            break;
                        }
                        if let Ok(t3) = p_binary::Tree::load(s2.clone(), n + j + 1) {
                            let mut m3 = m.clone();
                            (0..=j).for_each(|j| m3.push(&data(3, n + j)));
                            guard(|| look(&t3, &m3, n + j + 1))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")))
                                .map_err(|e| ctx(format!("{} can be loaded, but: {e}", n + j + 1)))?;
                        }
                    }
                    // other leaves this time
                    for j in 0..4 {
                        p_binary::push(&mut t2, &data(4, n + j)).map_err(ctx)?;
                        m2.push(&data(4, n + j));
                        if j != 2 {
                            guard(|| look(&t2, &m2, m2.len()))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")))
                                .map_err(|e| ctx(format!("then {} other pushes: {e}", j + 1)))?;
                        }
                        let k = n.saturating_sub(j * 3);
                        let t3 = p_binary::Tree::load(s2.clone(), k)
                            .map_err(|e| ctx(format!("then {} other pushes and load({k}): {:?}", j + 1, e)))?;
                        same_root(&t3, &m.root_at(k)).map_err(ctx)?;
                    }
                    acc.trace(1);
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves", max - i),
    ));
    // counts that can only be loaded: any part of the writes of one push lost
    let t_thorough = t.thorough();
    let counts: Vec<u64> = p_binary::structured_counts(t)
        .into_iter()
        .enumerate()
        .filter(|(j, n)| {
            *n < (1 << 63) - 1 && (n.trailing_ones() > 4 && (n.count_ones() < 40 || j % 3 == 0) || j % 12 == 0 || t.thorough())
        })
        .map(|x| x.1)
        .collect();
    let counts2 = counts.clone();
    v.push(Space::new(
        format!("{} structured leaf counts over 63 bits: any part of the writes of a push lost", counts.len()),
        counts.len() as u64,
        move |ci, acc| {
            type T = fuel_merkle::binary::MerkleTree<BTab, Virt>;
            let n = counts[ci as usize];
            let s0 = Virt::new(n);
            let mut t = T::load(s0.clone(), n).map_err(|e| format!("load({n}): {:?}", e))?;
            t.push(&data(3, 0)).map_err(|e| format!("push onto {n}: {:?}", e))?;
            let ws: Vec<(u64, (u64, H))> = s0.overlay.borrow().iter().map(|(k, v)| (*k, *v)).collect();
            let few = ws.len() > 12 && !t_thorough;
            for mask in masks(ws.len(), 6) {
                // long pushes: prefixes, suffixes, and one write missing or alone
                if few && mask.count_ones().min(ws.len() as u32 - mask.count_ones()) == 2 && mask % 5 != 0 {
                    continue;
                }
                acc.beat();
                acc.eval(1);
                acc.state(&("virtual", n, mask));
                let ctx = |e: String| format!("{n} leaves, a push with writes {mask:#b} of {} made: {e}", ws.len());
                let s2 = Virt::new(n);
                for (j, (k, v)) in ws.iter().enumerate() {
                    if mask >> j & 1 == 1 {
                        s2.overlay.borrow_mut().insert(*k, *v);
                    }
                }
                let mut t2 = T::load(s2.clone(), n).map_err(|e| ctx(format!("load({n}): {:?}", e)))?;
                let mut m = p_binary::VModel { base: n, extra: vec![] };
                for j in 0..if few { 2 } else { 3u64 } {
                    let c = n + j;
                    let root = root_of(&m, c);
                    if t2.root() != root {
                        return Err(ctx(format!("loaded at {n}, {j} other pushes: root {} instead of {}", hx(&t2.root()), hx(&root))));
                    }
                    for i in [0, n / 2, n.wrapping_sub(1), n, n + 1] {
                        if i < c {
                            p_binary::same_proof(&t2, i, c, &root, &audit(&m, i, c)).map_err(|e| ctx(format!("{j} other pushes: {e}")))?;
                        }
                    }
                    if c >= (1 << 63) - 1 {
                        break;
                    }
                    let d = data(4, j);
                    t2.push(&d).map_err(|e| ctx(format!("then push {j}: {:?}", e)))?;
                    m.extra.push(leaf(&d));
                    acc.step(1);
                }
                acc.trace(1);
            }
            Ok(())
        },
        move |i| format!("virtual tree of {} leaves", counts2[i as usize]),
    ));
    // histories of complete and interrupted pushes
    let len = t.pick(7usize, 9);
    let b = 6u64;
    let starts = [0u64, 1, 3, 7, 13];
    v.push(Space::new(
        format!("every history of length {len} of complete and interrupted pushes and rollbacks, from 0, 1, 3, 7 and 13 leaves"),
        5 * b.pow(len as u32),
        move |i, acc| {
            let n0 = starts[(i / b.pow(len as u32)) as usize];
            let d = digits(i % b.pow(len as u32), b, len);
            let (st, mut m) = filled(1, n0);
            let mut t = p_binary::Tree::load(st.clone(), n0).map_err(|e| format!("load({n0}): {:?}", e))?;
            for (p, &x) in d.iter().enumerate() {
                let ctx = |e: String| format!("{n0} leaves, {:?} at step {p}: {e}", d);
                let bytes = [x as u8, p as u8];
                match x {
                    0 => {
                        p_binary::push(&mut t, &bytes).map_err(ctx)?;
                        m.push(&bytes);
                    }
                    5 => {
                        let k = m.len() - m.len() / 3;
                        m.truncate(k);
                        t = p_binary::Tree::load(st.clone(), k).map_err(|e| ctx(format!("load({k}): {:?}", e)))?;
                    }
                    // the process stops at the x-th storage call of the push; a new one loads at the old count
                    _ => {
                        st.arm(x as u64, Mode::Down);
                        let done = guard(|| t.push(&bytes)).map_err(|p| ctx(format!("panic: {p}")))?.is_ok();
                        let hit = st.disarm();
                        if !hit && done {
                            m.push(&bytes);
                        }
                        let k = m.len();
                        t = p_binary::Tree::load(st.clone(), k).map_err(|e| ctx(format!("load({k}): {:?}", e)))?;
                    }
                }
                same_root(&t, &m.root()).map_err(ctx)?;
                acc.eval(1);
                acc.step(1);
            }
            p_binary::whole(&t, &m, m.len(), acc).map_err(|e| format!("{n0} leaves, {:?}: {e}", d))?;
            acc.state(&("history", n0, &d));
            acc.trace(1);
            Ok(())
        },
        move |i| {
            format!(
                "start {}: {:?} (0 push, 1-4 push stopped at that call and reload, 5 load one third back)",
                starts[(i / b.pow(len as u32)) as usize],
                digits(i % b.pow(len as u32), b, len)
            )
        },
    ));
    // sum trees: nothing stored is lost
    let max = t.pick(260u64, 500);
    v.push(Space::new(
        format!("sum: push and root stopped at every call, up to {max} leaves"),
        max + 1,
        move |i, acc| {
            let n = max - i;
            for what in 0..2 {
                for c in 1..=12u64 {
                    acc.beat();
                    let mut t = crate::p_sum::new_tree();
                    let mut l = vec![];
                    for j in 0..n {
                        (t.push)(j + 1, &data(1, j)).map_err(|e| format!("{:?}", e))?;
                        l.push(sum_leaf(j + 1, &data(1, j)));
                    }
                    if n > 0 {
                        (t.root)().map_err(|e| format!("{:?}", e))?;
                    }
                    let before = (t.dump)();
                    (t.arm)(c, Mode::Down);
                    let _ =
                        guard(|| if what == 0 { (t.push)(7, b"x") } else { (t.root)().map(|_| ()) }).map_err(|p| format!("panic: {p}"))?;
                    if !(t.disarm)() {
                        break;
                    }
                    acc.eval(1);
                    acc.step(1);
                    acc.state(&("sum", n, what, c));
                    let d = (t.dump)();
                    for (k, x) in &before {
                        if d.get(k) != Some(x) {
                            return Err(format!(
                                "{n} leaves, {} stopped at call {c}: the stored node {} was changed or removed",
                                ["push", "root"][what],
                                hx(k)
                            ));
                        }
                    }
                    if n > 0 {
                        crate::p_sum::stored(&d, &l)
                            .map_err(|e| format!("{n} leaves, {} stopped at call {c}: {e}", ["push", "root"][what]))?;
                    }
                    acc.trace(1);
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves", max - i),
    ));
    v
}

// ------------------------------------------------------------------ C30

pub fn c30(t: Tier) -> Vec<Space<'static>> {
    let len = t.pick(7usize, 8);
    const B: u64 = 8;
    let names = [
        "put in front",
        "take next",
        "cut the next",
        "set the node",
        "replace the rest",
        "drop the front",
        "clone and change the clone",
        "splice in the second place",
    ];
    let mut v = vec![];
    v.push(Space::new(
        format!("every sequence of {len} operations on a chain, against a list"),
        B.pow(len as u32),
        move |i, acc| {
            let d = digits(i, B, len);
            let mut c: Subtree<u32> = Subtree::new(0, None);
            let mut m = vec![0u32];
            for (p, &x) in d.iter().enumerate() {
                let n = p as u32 + 1;
                match x {
                    0 => {
                        c = Subtree::new(n, Some(Box::new(c)));
                        m.insert(0, n);
                    }
                    1 => match c.take_next() {
                        Some(rest) => {
                            if c.next().is_some() || c.next_node().is_some() {
                                return Err(format!("{:?} at step {p}: something follows after taking the rest", d));
                            }
                            // put it back behind a new node
                            c = Subtree::new(n, Some(rest));
                            m[0] = n;
                        }
                        None if m.len() > 1 => return Err(format!("{:?} at step {p}: nothing to take", d)),
                        None => {}
                    },
                    2 => {
                        *c.next_mut() = None;
                        m.truncate(1);
                    }
                    3 => {
                        *c.node_mut() = 100 + n;
                        m[0] = 100 + n;
                    }
                    4 => {
                        *c.next_mut() = Some(Box::new(Subtree::new(200 + n, Some(Box::new(Subtree::new(300 + n, None))))));
                        m.truncate(1);
                        m.extend([200 + n, 300 + n]);
                    }
                    5 => {
                        if let Some(rest) = c.take_next() {
                            c = *rest;
                            m.remove(0);
                        }
                    }
                    6 => {
                        let mut k = c.clone();
                        *k.node_mut() = 999;
                        if let Some(r) = k.next_mut() {
                            *r.node_mut() = 998;
                        }
                        k.take_next();
                    }
                    _ => {
                        let rest = c.take_next();
                        *c.next_mut() = Some(Box::new(Subtree::new(400 + n, rest)));
                        m.insert(1, 400 + n);
                    }
                }
                let mut got = vec![*c.node()];
                let mut at = &c;
                loop {
                    if at.next_node().is_some() != at.next().is_some() {
                        return Err(format!("{:?} at step {p}: the next node and the rest disagree", d));
                    }
                    match at.next() {
                        Some(r) => {
                            if at.next_node() != Some(r.node()) {
                                return Err(format!("{:?} at step {p}: the next node is not that of the rest", d));
                            }
                            got.push(*r.node());
                            at = r;
                        }
                        None => break,
                    }
                }
                if got != m {
                    return Err(format!("{:?} at step {p}: the chain holds {:?}, expected {:?}", d, got, m));
                }
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&m);
            Ok(())
        },
        move |i| digits(i, B, len).into_iter().map(|x| names[x]).collect::<Vec<_>>().join("; "),
    ));
    // long chains
    let max = t.pick(400u64, 1500);
    v.push(Space::new(
        format!("chains of every length up to {max} and some up to 20000: each operation at each place"),
        max + 12,
        move |i, acc| {
            let n = if i < max {
                i as usize + 1
            } else {
                [511, 512, 1023, 1024, 1025, 2047, 2048, 4096, 5000, 8192, 10_000, 20_000][(i - max) as usize]
            };
            let build = || {
                let mut c: Subtree<u32> = Subtree::new(n as u32 - 1, None);
                for j in (0..n as u32 - 1).rev() {
                    c = Subtree::new(j, Some(Box::new(c)));
                }
                c
            };
            let list = |c: &Subtree<u32>| -> Result<Vec<u32>, String> {
                let mut got = vec![*c.node()];
                let mut at = c;
                while let Some(r) = at.next() {
                    if at.next_node() != Some(r.node()) {
                        return Err(format!("chain of {n}: the next node is not that of the rest at {}", got.len()));
                    }
                    got.push(*r.node());
                    at = r;
                }
                if at.next_node().is_some() {
                    return Err(format!("chain of {n}: a node after the last"));
                }
                Ok(got)
            };
            fn at(mut c: &mut Subtree<u32>, k: usize) -> &mut Subtree<u32> {
                for _ in 0..k {
                    c = c.next_mut().as_mut().unwrap();
                }
                c
            }
            let m: Vec<u32> = (0..n as u32).collect();
            let same = |c: &Subtree<u32>, m: &[u32], what: &str| -> Res {
                let got = list(c)?;
                if got != m {
                    let at = got.iter().zip(m).position(|(a, b)| a != b).unwrap_or(got.len().min(m.len()));
                    return Err(format!(
                        "chain of {n}: after {what} it differs at place {at} (length {}, expected {})",
                        got.len(),
                        m.len()
                    ));
                }
                Ok(())
            };
            let base = build();
            same(&base, &m, "building")?;
            same(&base.clone(), &m, "cloning")?;
            let step = if n <= 128 { 1 } else { 1 + n / 24 };
            let places: Vec<usize> = (0..n).step_by(step).chain([n - 1]).collect();
            for k in places {
                acc.beat();
                acc.state(&(n, k));
                acc.step(6);
                // change one node of a clone
                let mut c = base.clone();
                let mut want = m.clone();
                *at(&mut c, k).node_mut() = 1 << 30;
                want[k] = 1 << 30;
                same(&c, &want, &format!("changing node {k}"))?;
                same(&base, &m, &format!("changing node {k} of a clone"))?;
                // take the rest
                let rest = at(&mut c, k).take_next();
                same(&c, &want[..=k], &format!("taking the rest at {k}"))?;
                match &rest {
                    None if k + 1 == n => {}
                    None => return Err(format!("chain of {n}: nothing to take at {k}")),
                    Some(r) => same(r, &want[k + 1..], &format!("taking the rest at {k}, in the rest"))?,
                }
                // put it back behind another
                *at(&mut c, k).next_mut() = Some(Box::new(Subtree::new(7, rest)));
                want.insert(k + 1, 7);
                same(&c, &want, &format!("splicing at {k}"))?;
                if at(&mut c, k).next_node() != Some(&7) {
                    return Err(format!("chain of {n}: the next node at {k} is not the one put there"));
                }
                // cut
                *at(&mut c, k).next_mut() = None;
                same(&c, &want[..=k], &format!("cutting at {k}"))?;
            }
            same(&base, &m, "all of it")?;
            acc.trace(1);
            Ok(())
        },
        |i| format!("chain number {i}"),
    ));
    v
}
