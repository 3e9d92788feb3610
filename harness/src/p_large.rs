//! C05, C06, C07, C29 in sparse trees of hundreds and thousands of entries: no-ops, failures, lost
//! nodes and interruptions, one after the other in the same tree, which is never loaded again.
use crate::engine::*;
use crate::p_sparse::{content_hash, e2s, families, medium, show, Op, Tree};
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use std::collections::HashMap;

struct Big {
    st: Mem<STab>,
    tree: Tree,
    trie: Trie,
    vals: HashMap<H, Vec<u8>>,
}
impl Big {
    fn run(&mut self, op: &Op) -> Result<(), String> {
        let t = &mut self.tree;
        guard(|| match op {
            Op::Up(k, v) => t.update(k, v).map_err(e2s),
            Op::Del(k) => t.delete(k).map_err(e2s),
            Op::Reload => Ok(()),
        })
        .unwrap_or_else(|p| Err(format!("panic: {p}")))
    }
    fn model(&mut self, op: &Op) {
        match op {
            Op::Up(k, v) if !v.is_empty() => {
                self.trie.set(k, &value_digest(v), 0);
                self.vals.insert(*k, v.clone());
            }
            Op::Up(k, _) | Op::Del(k) => {
                self.trie.del(k, 0);
                self.vals.remove(k);
            }
            Op::Reload => {}
        }
    }
    fn check(&self) -> Res {
        match (self.tree.root(), self.trie.root()) {
            (a, b) if a == b => Ok(()),
            (a, b) => Err(format!("root {} differs from the specified root {} of {} entries", hx(&a), hx(&b), self.vals.len())),
        }
    }
    fn apply(&mut self, op: &Op) -> Res {
        self.run(op).map_err(|e| format!("{} failed on a working store: {e}", show(op)))?;
        self.model(op);
        self.check().map_err(|e| format!("after {}: {e}", show(op)))
    }
    /// the operation that undoes this one
    fn inverse(&self, op: &Op) -> Op {
        match op {
            Op::Up(k, _) | Op::Del(k) => match self.vals.get(k) {
                Some(v) => Op::Up(*k, v.clone()),
                None => Op::Del(*k),
            },
            Op::Reload => Op::Reload,
        }
    }
    /// the root after the operation
    fn root_after(&mut self, op: &Op) -> H {
        let inv = self.inverse(op);
        self.model(op);
        let r = self.trie.root();
        self.model(&inv);
        r
    }
}
/// Is a whole tree of this root in the store?
fn whole(st: &Mem<STab>, root: &H) -> Result<(), String> {
    let inner = st.0.borrow();
    let mut todo = vec![(*root, 256u32)];
    while let Some((h, height)) = todo.pop() {
        if h == ZERO {
            continue;
        }
        let p = inner.map.get(&h).ok_or_else(|| format!("node {} of height {height} is not stored", hx(&h)))?;
        if p.1 == 0 && p.0 == 0 {
            continue;
        }
        if p.1 != 1 || p.0 != height {
            return Err(format!("node {} of height {height} is stored with height {} and marker {}", hx(&h), p.0, p.1));
        }
        todo.push((p.2, height - 1));
        todo.push((p.3, height - 1));
    }
    Ok(())
}
fn shape(f: usize, i: u32, t: Tier) -> H {
    match f {
        0..=6 => families(t)[f].2(i),
        7 => medium()[1].2(i as usize),
        _ => medium()[2].2(i as usize),
    }
}
fn build(f: usize, n: u32, t: Tier) -> Result<(Big, Vec<Op>), String> {
    let st = Mem::<STab>::fingerprinted(content_hash);
    let mut b = Big { tree: Tree::new(st.clone()), st, trie: Trie::Empty, vals: HashMap::new() };
    let key = |i| shape(f, i, t);
    for i in 0..n + 6 {
        b.apply(&Op::Up(key(i), vec![i as u8, 1]))?;
    }
    for i in 0..6 {
        b.apply(&Op::Del(key(n + i)))?;
    }
    for i in (0..n).step_by(7) {
        b.apply(&Op::Up(key(i), vec![3; 1 + i as usize % 70]))?;
    }
    let mut at: Vec<u32> = vec![0, 1, 2, n / 3, n / 2, n / 2 + 1, n - 2, n - 1];
    at.sort();
    at.dedup();
    let mut ops = vec![];
    for (x, i) in at.iter().enumerate() {
        ops.push(Op::Del(key(*i)));
        ops.push(Op::Up(key(*i), b"another".to_vec()));
        if x % 2 == 0 {
            ops.push(Op::Up(key(*i), b.vals[&key(*i)].clone()));
        }
    }
    for i in 0..3 {
        ops.push(Op::Up(key(n + i), b"fresh".to_vec()));
        ops.push(Op::Del(key(n + i)));
    }
    for (x, d) in [0, 2, 7, 11, 16, 40, 130, 255].into_iter().enumerate() {
        let k = flip(&key(at[x % at.len()]), d);
        if !b.vals.contains_key(&k) {
            ops.push(Op::Up(k, b"near".to_vec()));
            ops.push(Op::Del(k));
        }
    }
    Ok((b, ops))
}
const NAMES: [&str; 9] = [
    "hashed keys",
    "keys counting in the first bytes",
    "keys counting in bytes 4..8",
    "keys counting in the last bytes",
    "keys counting in bytes 14..18",
    "every two-byte start",
    "every two-byte end, split at the top",
    "dense first byte",
    "comb",
];
fn cases(t: Tier) -> Vec<(usize, u32)> {
    let mut v = vec![];
    for n in t.pick(vec![60, 130, 260, 520, 1100, 2100], vec![60, 130, 260, 520, 1100, 2100, 4200, 8300, 17000]) {
        for f in 0..9 {
            let max = match f {
                0..=6 => families(t)[f].1,
                7 => 256,
                _ => 100,
            };
            let deep = matches!(f, 3 | 4 | 6);
            if n + 6 <= max && (!deep || n <= t.pick(600, 2500)) {
                v.push((f, n));
            }
        }
    }
    v.reverse();
    v
}
fn large(what: &str, t: Tier, max: u32, each: impl Fn(&mut Big, &[Op], &Acc, usize) -> Res + Sync + Send + 'static) -> Space<'static> {
    let mut cs = cases(t);
    cs.retain(|c| c.1 <= max);
    let names = cs.clone();
    let mut s = Space::new(
        format!("{what} in trees of up to {} entries of 9 families", cs[0].1),
        cs.len() as u64,
        move |i, acc| {
            let (f, n) = cs[i as usize];
            let (mut b, ops) = build(f, n, t)?;
            let r0 = b.trie.root();
            for x in 0..ops.len() {
                each(&mut b, &ops, acc, x).map_err(|e| format!("{n} entries, {}: {e}", show(&ops[x])))?;
                if b.trie.root() != r0 {
                    return Err("internal: the model was not restored".into());
                }
                b.check().map_err(|e| format!("{n} entries, {} tried and undone: {e}", show(&ops[x])))?;
                acc.trace(1);
            }
            whole(&b.st, &r0).map_err(|e| format!("{n} entries, in the end: {e}"))?;
            let t2 = Tree::load(b.st.clone(), &r0).map_err(|e| format!("{n} entries, load in the end: {}", e2s(e)))?;
            if t2.root() != r0 {
                return Err(format!("{n} entries: loaded with another root"));
            }
            Ok(())
        },
        move |i| format!("{}, {} entries", NAMES[names[i as usize].0], names[i as usize].1),
    );
    s.chunk = 1;
    s
}
fn key_of(op: &Op) -> H {
    match op {
        Op::Up(k, _) | Op::Del(k) => *k,
        Op::Reload => ZERO,
    }
}
fn some(n: u64, c: u64) -> bool {
    n < 60 || c < 14 || c + 14 > n || c % 32 == 0
}

pub fn c05_large(t: Tier) -> Vec<Space<'static>> {
    vec![large("no-ops, undo and commutation", t, t.pick(2100, 17000), move |b, ops, acc, x| {
        let a = &ops[x];
        let r0 = b.tree.root();
        let inv = b.inverse(a);
        let noop = inv == *a;
        // twice, and undone
        b.apply(a)?;
        let ra = b.tree.root();
        if noop && ra != r0 {
            return Err("is no change but changed the root".into());
        }
        b.apply(a)?;
        b.apply(&inv)?;
        if b.tree.root() != r0 || ra != b.root_after(a) {
            return Err(format!("and {} do not give the root before", show(&inv)));
        }
        acc.step(3);
        for y in x + 1..ops.len() {
            let o = &ops[y];
            if key_of(o) == key_of(a) {
                continue;
            }
            acc.beat();
            let inv_o = b.inverse(o);
            let mut roots = vec![];
            for (first, second) in [(a, o), (o, a)] {
                b.apply(first)?;
                b.apply(second)?;
                roots.push(b.tree.root());
                // undone in the order they were made
                let (u, w) = if first == a { (&inv, &inv_o) } else { (&inv_o, &inv) };
                b.apply(u)?;
                b.apply(w)?;
                if b.tree.root() != r0 {
                    return Err(format!("then {}, both undone: another root", show(o)));
                }
                acc.step(4);
            }
            if roots[0] != roots[1] {
                return Err(format!("and {} do not commute", show(o)));
            }
            acc.state(&(b.vals.len(), r0, x, y));
        }
        Ok(())
    })]
}

pub fn c06_large(t: Tier) -> Vec<Space<'static>> {
    vec![large("every failing call of operations", t, t.pick(2100, 8300), move |b, ops, acc, x| {
        let op = &ops[x];
        let inv = b.inverse(op);
        let (before, after) = (b.trie.root(), b.root_after(op));
        b.st.reset_calls();
        b.apply(op)?;
        let dry = b.st.calls();
        b.apply(&inv)?;
        for c in (1..=dry).filter(|c| some(dry, *c)) {
            for mode in [Mode::Before, Mode::After, Mode::Down] {
                acc.beat();
                acc.eval(1);
                acc.state(&(b.vals.len(), before, x, c, mode as u8));
                let ctx = |e: String| format!("with storage call {c} of {dry} failing ({mode:?}): {e}");
                b.st.arm(c, mode);
                let r = b.run(op);
                let hit = b.st.disarm();
                match r {
                    Ok(()) if hit => return Err(ctx("reported success although a storage call failed".into())),
                    Err(e) if hit && !carries(&e, c) => return Err(ctx(format!("reported {e}, which does not carry the failure"))),
                    Err(e) if !hit => return Err(ctx(format!("reported {e} without a failure"))),
                    _ => {}
                }
                let r = b.tree.root();
                if r == after {
                    b.model(op);
                } else if r != before {
                    return Err(ctx(format!("root {} is neither the root before nor after the operation", hx(&r))));
                }
                if (c + x as u64) % 5 == 0 {
                    whole(&b.st, &r).map_err(&ctx)?;
                }
                // another operation, then the same once more, then back
                let other = &ops[(x * 7 + c as usize) % ops.len()];
                if key_of(other) != key_of(op) {
                    let undo = b.inverse(other);
                    b.apply(other).and_then(|_| b.apply(&undo)).map_err(|e| ctx(format!("then {}: {e}", show(other))))?;
                }
                b.apply(op).map_err(|e| ctx(format!("then {}: {e}", show(op))))?;
                b.apply(&inv).map_err(|e| ctx(format!("then {}, {}: {e}", show(op), show(&inv))))?;
                acc.step(5);
            }
        }
        Ok(())
    })]
}

pub fn c07_large(t: Tier) -> Vec<Space<'static>> {
    vec![large("every lost or undecodable node that an operation reads", t, t.pick(2100, 17000), move |b, ops, acc, x| {
        let op = &ops[x];
        let inv = b.inverse(op);
        let (before, after) = (b.trie.root(), b.root_after(op));
        b.st.start_log();
        b.apply(op)?;
        let mut read: Vec<H> = b.st.take_log().into_iter().filter(|(o, _)| *o == crate::store::Op::Get).map(|(_, k)| k).collect();
        b.apply(&inv)?;
        read.dedup();
        let n = read.len() as u64;
        for (y, e) in read.into_iter().enumerate() {
            let Some(p) = b.st.peek(&e) else { continue };
            if !some(n, y as u64) {
                continue;
            }
            for m in [None, Some([2u8, 0x21, 0xff][y % 3])] {
                acc.beat();
                acc.eval(1);
                acc.state(&(b.vals.len(), before, x, y, m));
                let ctx = |x: String| format!("node {} {}: {x}", hx(&e), m.map_or("lost".into(), |m| format!("with marker {m}")));
                let damage = |b: &Big| match m {
                    None => drop(b.st.lose(&e)),
                    Some(m) => b.st.put(&e, (p.0, m, p.2, p.3)),
                };
                damage(b);
                // two operations, and the first once more
                let other = &ops[(x * 5 + y) % ops.len()];
                for (z, o) in [op, other, op].into_iter().enumerate() {
                    if z == 1 && key_of(o) == key_of(op) {
                        continue;
                    }
                    let undo = b.inverse(o);
                    let (r0, r1) = (b.trie.root(), b.root_after(o));
                    match b.run(o) {
                        Err(e) if e.starts_with("panic") => return Err(ctx(format!("{} {e}", show(o)))),
                        Err(e) if b.tree.root() != r0 => return Err(ctx(format!("{} failed ({e}) but changed the root", show(o)))),
                        Err(_) => {}
                        Ok(()) if b.tree.root() != r1 => return Err(ctx(format!("{} succeeded with a wrong root", show(o)))),
                        Ok(()) => {
                            b.model(o);
                            b.st.put(&e, p);
                            b.apply(&undo).map_err(|x| ctx(format!("{} made and undone: {x}", show(o))))?;
                            damage(b);
                        }
                    }
                }
                b.st.put(&e, p);
                b.apply(op).and_then(|_| b.apply(&inv)).map_err(|x| ctx(format!("{} after restoring the node: {x}", show(op))))?;
                acc.step(5);
            }
        }
        let _ = after;
        Ok(())
    })]
}

pub fn c29_large(t: Tier) -> Vec<Space<'static>> {
    vec![large("every interruption of operations", t, t.pick(1100, 4200), move |b, ops, acc, x| {
        let op = &ops[x];
        let inv = b.inverse(op);
        let (before, after) = (b.trie.root(), b.root_after(op));
        let st0 = b.st.fork();
        b.st.start_writes();
        b.apply(op)?;
        let ws = b.st.take_writes();
        b.apply(&inv)?;
        let n = ws.len() as u64;
        let had = st0.has(&after);
        for p in (0..=n).filter(|p| some(n, *p)) {
            acc.beat();
            acc.eval(1);
            acc.state(&(b.vals.len(), before, x, p));
            let ctx = |e: String| format!("interrupted after {p} of {n} writes: {e}");
            let s = st0.fork_with(ws[..p as usize].iter());
            let (old, new) = (whole(&s, &before), whole(&s, &after));
            if let (false, true, Err(e)) = (had, s.has(&after), &new) {
                return Err(ctx(format!("the new root is in the store but its tree is not whole: {e}")));
            }
            let from = match (&old, &new) {
                (Ok(()), _) => before,
                (_, Ok(())) => after,
                (Err(a), Err(b)) => {
                    return Err(ctx(format!("neither the tree before ({a}) nor the tree after it ({b}) is whole in the store")))
                }
            };
            // a new process repeats it, and undoes it
            let mut t2 = Tree::load(s.clone(), &from).map_err(|e| ctx(format!("load at {}: {}", hx(&from), e2s(e))))?;
            for (o, want) in [(op, after), (&inv, before)] {
                let r = match o {
                    Op::Up(k, v) => t2.update(k, v),
                    Op::Del(k) => t2.delete(k),
                    Op::Reload => Ok(()),
                };
                r.map_err(|e| ctx(format!("then {}: {}", show(o), e2s(e))))?;
                if t2.root() != want {
                    return Err(ctx(format!("then {}: root {}, expected {}", show(o), hx(&t2.root()), hx(&want))));
                }
            }
            whole(&s, &before).map_err(|e| ctx(format!("repeated and undone: {e}")))?;
            acc.step(2);
        }
        Ok(())
    })]
}
