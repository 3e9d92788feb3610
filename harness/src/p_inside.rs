//! C26, second part: operations interleaved inside one another, at every storage access.
use crate::engine::*;
use crate::p_binary::{self, data};
use crate::p_sparse;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::{binary, sparse};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc};

/// A tree of some kind: operations by number, and a look at all that can be observed.
struct Actor {
    op: Box<dyn FnMut(usize) -> u64>,
    look: Box<dyn FnMut() -> u64>,
}
const KINDS: [&str; 5] = ["binary", "sparse", "sum", "in-memory binary", "in-memory sparse"];
const NOPS: [usize; 5] = [6, 6, 4, 4, 4];
/// the kinds over a storage of the caller's
const STORED: usize = 3;

fn actor(kind: usize) -> Actor {
    let key = |o: usize| [ZERO, flip(&ZERO, 255), flip(&ZERO, 0)][o % 3];
    match kind {
        0 => {
            let st = p_binary::Store::new();
            let t = Rc::new(RefCell::new((p_binary::Tree::new(st.clone()), 0u64)));
            let (s2, t2) = (st.clone(), t.clone());
            Actor {
                op: Box::new(move |o| {
                    let (t, n) = &mut *t.borrow_mut();
                    match o {
                        0 | 1 => {
                            let r = t.push(&[*n as u8, o as u8][..2 - o]);
                            *n += 1;
                            fp(&r.is_ok())
                        }
                        2 => fp(&t.prove(*n / 2).map_err(|e| format!("{:?}", e))),
                        3 => fp(&t.prove(n.wrapping_sub(1)).map_err(|e| format!("{:?}", e))),
                        _ => {
                            if o == 5 && *n > 0 {
                                *n -= 1;
                            }
                            match p_binary::Tree::load(st.clone(), *n) {
                                Ok(x) => {
                                    *t = x;
                                    fp(&t.root())
                                }
                                Err(e) => fp(&format!("{:?}", e)),
                            }
                        }
                    }
                }),
                look: Box::new(move || {
                    let (t, n) = &*t2.borrow();
                    fp(&(t.root(), (0..n + 1).map(|i| t.prove(i).map_err(|e| format!("{:?}", e))).collect::<Vec<_>>(), s2.snapshot()))
                }),
            }
        }
        1 => {
            let st = Mem::<STab>::new();
            let t = Rc::new(RefCell::new(sparse::MerkleTree::<STab, Mem<STab>>::new(st.clone())));
            let (s2, t2) = (st.clone(), t.clone());
            Actor {
                op: Box::new(move |o| {
                    let mut t = t.borrow_mut();
                    let r = match o {
                        0 => t.update(&key(0), b"a"),
                        1 => t.update(&key(1), b"a"),
                        2 => t.update(&key(2), b"b"),
                        3 => t.delete(&key(1)),
                        4 => t.delete(&key(2)),
                        _ => {
                            let root = t.root();
                            sparse::MerkleTree::load(st.clone(), &root).map(|x| *t = x)
                        }
                    };
                    fp(&r.map_err(|e| format!("{:?}", e)))
                }),
                look: Box::new(move || fp(&(t2.borrow().root(), s2.snapshot()))),
            }
        }
        2 => {
            let t = Rc::new(RefCell::new(crate::p_sum::new_tree()));
            let t2 = t.clone();
            Actor {
                op: Box::new(move |o| {
                    let mut t = t.borrow_mut();
                    match o {
                        0 => fp(&(t.push)(1, b"a").is_ok()),
                        1 => fp(&(t.push)(2, b"a").is_ok()),
                        2 => fp(&(t.push)(1 << 40, b"").is_ok()),
                        _ => fp(&(t.root)().map_err(|e| format!("{:?}", e))),
                    }
                }),
                look: Box::new(move || {
                    let mut t = t2.borrow_mut();
                    let r = (t.root)();
                    fp(&(r.map_err(|e| format!("{:?}", e)), (t.dump)()))
                }),
            }
        }
        3 => {
            let t = Rc::new(RefCell::new((binary::in_memory::MerkleTree::new(), 0u64)));
            let t2 = t.clone();
            Actor {
                op: Box::new(move |o| {
                    let (t, n) = &mut *t.borrow_mut();
                    match o {
                        0 | 1 => {
                            t.push(&[*n as u8, o as u8 + 5]);
                            *n += 1;
                            0
                        }
                        2 => fp(&t.prove(*n / 2)),
                        _ => fp(&t.root()),
                    }
                }),
                look: Box::new(move || {
                    let (t, n) = &mut *t2.borrow_mut();
                    fp(&(t.root(), (0..*n + 1).map(|i| t.prove(i)).collect::<Vec<_>>()))
                }),
            }
        }
        _ => {
            let t = Rc::new(RefCell::new(sparse::in_memory::MerkleTree::new()));
            let t2 = t.clone();
            Actor {
                op: Box::new(move |o| {
                    let mut t = t.borrow_mut();
                    match o {
                        0 => t.update(&key(0), b"c"),
                        1 => t.update(&key(1), b"a"),
                        2 => t.update(&key(2), b""),
                        _ => t.delete(&key(1)),
                    }
                    0
                }),
                look: Box::new(move || fp(&t2.borrow().root())),
            }
        }
    }
}
/// all op sequences of a kind of length 1..=max, shortest first
fn scripts(kind: usize, max: usize) -> Vec<Vec<usize>> {
    (1..=max).flat_map(|l| (0..(NOPS[kind] as u64).pow(l as u32)).map(move |i| digits(i, NOPS[kind] as u64, l))).collect()
}
/// what the last operation of a script answers, what the tree is then, and the storage accesses of that operation
fn alone(kind: usize, s: &[usize]) -> (u64, u64, usize) {
    let mut a = actor(kind);
    let (last, hist) = s.split_last().unwrap();
    for &o in hist {
        (a.op)(o);
    }
    let n = Rc::new(Cell::new(0));
    let n2 = n.clone();
    let r = hooked(Box::new(move || n2.set(n2.get() + 1)), || (a.op)(*last));
    (r, (a.look)(), n.get())
}

/// Hands two threads the right to run, in the order of a schedule, from storage access to storage access.
struct Gate {
    order: Vec<bool>,
    pos: AtomicUsize,
    done: [AtomicBool; 2],
}
impl Gate {
    fn wait(&self, me: usize) {
        let mut spins = 0u32;
        loop {
            if self.done[1 - me].load(SeqCst) {
                return;
            }
            match self.order.get(self.pos.load(SeqCst)) {
                Some(&x) if x as usize == me => return,
                None if me == 0 => return,
                _ => {}
            }
            spins += 1;
            if spins < 2000 {
                std::hint::spin_loop();
            } else {
                std::thread::yield_now();
            }
        }
    }
    fn step(&self, me: usize) {
        self.pos.fetch_add(1, SeqCst);
        self.wait(me);
    }
    fn end(&self, me: usize) {
        self.done[me].store(true, SeqCst);
        self.pos.fetch_add(1, SeqCst);
    }
}
/// run one side under the gate
fn gated<T>(g: &Arc<Gate>, me: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let g2 = g.clone();
    g.wait(me);
    let r = guard(|| hooked(Box::new(move || g2.step(me)), f));
    g.end(me);
    r
}
/// all orders of a and b steps
fn orders(a: usize, b: usize) -> Vec<Vec<bool>> {
    fn go(a: usize, b: usize, cur: &mut Vec<bool>, out: &mut Vec<Vec<bool>>) {
        if a + b == 0 {
            out.push(cur.clone());
            return;
        }
        for (x, (na, nb)) in [(false, (a.wrapping_sub(1), b)), (true, (a, b.wrapping_sub(1)))] {
            if na == usize::MAX || nb == usize::MAX {
                continue;
            }
            cur.push(x);
            go(na, nb, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(a, b, &mut vec![], &mut out);
    out
}
fn order_text(o: &[bool]) -> String {
    o.iter().map(|&b| if b { 'b' } else { 'a' }).collect()
}

/// Something made ready, and then done once.
type Ready<T> = Box<dyn FnOnce() -> T>;
type Deed<T> = (String, Box<dyn Fn() -> Ready<T> + Send + Sync>);
fn bin_store(n: u64, set: u64) -> (p_binary::Store, p_binary::Tree) {
    let st = p_binary::Store::new();
    let mut t = p_binary::Tree::new(st.clone());
    (0..n).for_each(|i| t.push(&data(set, i)).expect("push on a working store"));
    (st, t)
}
/// Operations of trees that go wrong: true if the operation failed as it was meant to.
fn failing(big: u64) -> Vec<Deed<bool>> {
    let mut v: Vec<Deed<bool>> = vec![];
    // binary: a node of the tree is lost; proofs and loads that need it
    for n in 2..=big {
        let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
        for (k, _) in m.stored(n) {
            for i in 0..n {
                v.push((
                    format!("prove({i}) of a binary tree of {n} leaves without node {k}"),
                    Box::new(move || {
                        let (st, t) = bin_store(n, 1);
                        st.lose(&k);
                        Box::new(move || t.prove(i).is_err())
                    }),
                ));
            }
            v.push((
                format!("load of a binary tree of {n} leaves without node {k}"),
                Box::new(move || {
                    let (st, _) = bin_store(n, 1);
                    st.lose(&k);
                    Box::new(move || p_binary::Tree::load(st, n).is_err())
                }),
            ));
        }
    }
    // binary: a call fails
    for n in 0..=big {
        for (o, what) in ["push", "load", "prove first", "prove middle", "prove last"].into_iter().enumerate() {
            for c in 1..=2 * (n.max(1).ilog2() as u64) + 2 {
                for mode in [Mode::Before, Mode::After, Mode::Down] {
                    v.push((
                        format!("{what} on a binary tree of {n} leaves with storage call {c} failing ({mode:?})"),
                        Box::new(move || {
                            let (st, mut t) = bin_store(n, 1);
                            Box::new(move || {
                                st.arm(c, mode);
                                match o {
                                    0 => t.push(&data(1, n)).is_err(),
                                    1 => p_binary::Tree::load(st.clone(), n).is_err(),
                                    2 => t.prove(0).is_err(),
                                    3 => t.prove(n / 2).is_err(),
                                    _ => t.prove(n.wrapping_sub(1)).is_err(),
                                }
                            })
                        }),
                    ));
                }
            }
        }
        v.push((
            format!("prove({n}) of an in-memory tree of {n} leaves"),
            Box::new(move || {
                let mut t = binary::in_memory::MerkleTree::new();
                (0..n).for_each(|i| t.push(&data(1, i)));
                Box::new(move || t.prove(n).is_none())
            }),
        ));
    }
    // sparse: each node lost or undecodable, each call failing
    for (name, keys) in p_sparse::shapes() {
        if name != "edge" && name != "mid" && name != "top" {
            continue;
        }
        let keys: Vec<H> = keys[..3].to_vec();
        let ops: Vec<p_sparse::Op> = keys
            .iter()
            .flat_map(|k| [p_sparse::Op::Up(*k, vec![9]), p_sparse::Op::Up(*k, vec![]), p_sparse::Op::Del(*k)])
            .chain([p_sparse::Op::Up(flip(&keys[1], 200), vec![3]), p_sparse::Op::Reload])
            .collect();
        for held in [2usize, 3] {
            let hist: Vec<p_sparse::Op> = keys[..held].iter().map(|k| p_sparse::Op::Up(*k, vec![1])).collect();
            let live = p_sparse::Live::replay(&hist).expect("a working store");
            let nodes = live.st.snapshot();
            // in deep trees the uppermost and lowest nodes
            let top = nodes.values().map(|p| p.0).max().unwrap_or(0);
            let nodes: Vec<H> = nodes.iter().filter(|(_, p)| p.0 < 4 || p.0 + 4 > top).map(|(h, _)| *h).collect();
            for op in &ops {
                for (x, node) in nodes.iter().flat_map(|h| [(0, *h), (1, *h)]) {
                    let (hist, op) = (hist.clone(), op.clone());
                    v.push((
                        format!(
                            "{name}: [{}]; {} with node {} {}",
                            p_sparse::shows(&hist),
                            p_sparse::show(&op),
                            hx(&node),
                            ["lost", "undecodable"][x]
                        ),
                        Box::new(move || {
                            let mut l = p_sparse::Live::replay(&hist).expect("a working store");
                            let old = l.st.lose(&node);
                            if let (1, Some((h, _, a, b))) = (x, old) {
                                l.st.put(&node, (h, 7, a, b));
                            }
                            let op = op.clone();
                            Box::new(move || l.run(&op).is_err())
                        }),
                    ));
                }
                for c in 1..=12 {
                    let (hist, op) = (hist.clone(), op.clone());
                    v.push((
                        format!("{name}: [{}]; {} with storage call {c} failing", p_sparse::shows(&hist), p_sparse::show(&op)),
                        Box::new(move || {
                            let mut l = p_sparse::Live::replay(&hist).expect("a working store");
                            let op = op.clone();
                            Box::new(move || {
                                l.st.arm(c, [Mode::Before, Mode::After][c as usize % 2]);
                                l.run(&op).is_err()
                            })
                        }),
                    ));
                }
            }
        }
    }
    // sum
    for n in 0..=big {
        for c in 1..=8 {
            for root in [false, true] {
                v.push((
                    format!("{} of a sum tree of {n} leaves with storage call {c} failing", if root { "root" } else { "push" }),
                    Box::new(move || {
                        let mut t = crate::p_sum::new_tree();
                        (0..n).for_each(|i| (t.push)(i, &data(1, i)).expect("push on a working store"));
                        Box::new(move || {
                            (t.arm)(c, [Mode::Before, Mode::After][c as usize % 2]);
                            if root {
                                (t.root)().is_err()
                            } else {
                                (t.push)(n, &data(1, n)).is_err()
                            }
                        })
                    }),
                ));
            }
        }
    }
    v
}
/// Operations of other trees, with all that can be observed afterwards.
fn others(big: u64) -> Vec<Deed<u64>> {
    let mut v: Vec<Deed<u64>> = vec![];
    for n in 1..=big {
        for i in 0..n {
            v.push((
                format!("prove({i}) of another binary tree of {n} leaves"),
                Box::new(move || {
                    let (_, t) = bin_store(n, 2);
                    Box::new(move || fp(&(t.prove(i).map_err(|e| format!("{:?}", e)), t.root())))
                }),
            ));
        }
        v.push((
            format!("prove({}) of an in-memory tree of {n} leaves", n / 2),
            Box::new(move || {
                let mut t = binary::in_memory::MerkleTree::new();
                (0..n).for_each(|i| t.push(&data(2, i)));
                Box::new(move || fp(&(t.prove(n / 2), t.root())))
            }),
        ));
        v.push((
            format!("load and root of another binary tree of {n} leaves"),
            Box::new(move || {
                let (st, _) = bin_store(n, 2);
                Box::new(move || fp(&p_binary::Tree::load(st, n).map(|t| t.root()).map_err(|e| format!("{:?}", e))))
            }),
        ));
        v.push((
            format!("push on another binary tree of {n} leaves"),
            Box::new(move || {
                let (st, mut t) = bin_store(n, 2);
                Box::new(move || fp(&(t.push(&data(2, n)).is_ok(), t.root(), st.snapshot())))
            }),
        ));
    }
    for kind in 1..KINDS.len() {
        let mut ss = scripts(kind, if kind == 1 { 2 } else { 1 });
        if kind == 1 {
            ss.extend([vec![0, 1, 2], vec![0, 1, 3], vec![0, 1, 2, 3], vec![0, 1, 2, 5]]);
        }
        if kind == 2 {
            ss.extend((2..=9).flat_map(|n| [vec![0; n], [vec![1; n], vec![3]].concat()]));
        }
        if kind == 4 {
            ss.extend([vec![0, 1], vec![0, 1, 2], vec![0, 1, 3]]);
        }
        for s in ss {
            v.push((
                format!("operations {s:?} on a {} tree", KINDS[kind]),
                Box::new(move || {
                    let mut a = actor(kind);
                    let s = s.clone();
                    let (last, hist) = s.split_last().unwrap();
                    for &o in hist {
                        (a.op)(o);
                    }
                    let last = *last;
                    Box::new(move || fp(&((a.op)(last), (a.look)())))
                }),
            ));
        }
    }
    // trees made only then
    for n in [1, 2, 3, 6, 7, 11] {
        v.push((
            format!("another binary tree of {n} leaves"),
            Box::new(move || {
                Box::new(move || {
                    let (st, t) = bin_store(n, 2);
                    fp(&(t.root(), (0..n).map(|i| t.prove(i).map_err(|e| format!("{:?}", e))).collect::<Vec<_>>(), st.snapshot()))
                })
            }),
        ));
    }
    for kind in 1..KINDS.len() {
        v.push((
            format!("another {} tree", KINDS[kind]),
            Box::new(move || {
                Box::new(move || {
                    let mut a = actor(kind);
                    fp(&((0..NOPS[kind]).map(|o| ((a.op)(o), (a.look)())).collect::<Vec<_>>(), 0))
                })
            }),
        ));
    }
    v
}

pub fn c26_inside(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // an operation of one tree fails, and then another tree is used
    let (big, obig) = (t.pick(11u64, 17), t.pick(13u64, 17));
    let fs = Arc::new(failing(big));
    let os = Arc::new(others(obig));
    let wants: Arc<Vec<u64>> = Arc::new(
        (0..os.len())
            .map(|i| std::thread::scope(|sc| spawn_in(sc, 4, || (os[i].1)()()).join().expect("an operation of a tree alone panicked")))
            .collect(),
    );
    let fs2 = fs.clone();
    v.push(Space::new(
        format!(
            "an operation of a tree of up to {big} leaves that fails, then one of {} operations of another tree of up to {obig}",
            os.len()
        ),
        fs.len() as u64,
        move |i, acc| {
            let f = &fs[i as usize];
            // on a thread of its own: what one case leaves behind must not show in another
            let r: Result<u64, String> = std::thread::scope(|sc| {
                spawn_in(sc, 4, || {
                    for (o, want) in os.iter().zip(wants.iter()) {
                        let (ready, fail) = ((o.1)(), (f.1)());
                        if !guard(fail).map_err(|p| format!("panicked: {p}"))? {
                            return Ok(0);
                        }
                        let r = guard(ready).map_err(|p| format!("after it, {} panicked: {p}", o.0))?;
                        if r != *want {
                            return Err(format!("after it, {} gives another outcome than alone", o.0));
                        }
                    }
                    Ok(os.len() as u64)
                })
                .join()
                .unwrap_or_else(|_| Err("the thread died".into()))
            });
            match r? {
                0 => acc.note("operations that work all the same", 1),
                n => {
                    acc.step(2 * n);
                    acc.trace(n);
                    acc.state(&("failing", &f.0));
                }
            }
            Ok(())
        },
        move |i| fs2[i as usize].0.clone(),
    ));
    // one tree's operation runs inside another's, at each storage access
    for (lo, li) in t.pick(vec![(2usize, 2usize), (3, 1)], vec![(3, 2), (4, 1), (2, 3)]) {
        let outer: Arc<Vec<(usize, Vec<usize>)>> =
            Arc::new((0..STORED).flat_map(|k| scripts(k, lo).into_iter().map(move |s| (k, s))).collect());
        let inner: Arc<Vec<(usize, Vec<usize>, u64, u64)>> = Arc::new(
            (0..KINDS.len())
                .flat_map(|k| {
                    scripts(k, li).into_iter().map(move |s| {
                        let (r, l, _) = alone(k, &s);
                        (k, s, r, l)
                    })
                })
                .collect(),
        );
        let o2 = outer.clone();
        let show = move |i: u64| {
            format!("{} tree, operations {:?}, every other tree's operation inside the last", KINDS[o2[i as usize].0], o2[i as usize].1)
        };
        v.push(Space::new(
        format!("another tree's operation inside an operation, at each of its storage accesses: outer scripts of up to {lo} operations, inner of up to {li}"),
        outer.len() as u64,
        move |i, acc| {
            let (ko, so) = &outer[i as usize];
            let (want, want_look, calls) = alone(*ko, so);
            let (last, hist) = so.split_last().unwrap();
            for (ki, si, wr, wl) in inner.iter() {
                acc.beat();
                for at in 1..=calls {
                    // the inner tree made beforehand or only now
                    for early in [true, false] {
                        let mut a = actor(*ko);
                        for &o in hist {
                            (a.op)(o);
                        }
                        let (il, ih) = si.split_last().unwrap();
                        let make = {
                            let (ki, ih) = (*ki, ih.to_vec());
                            move || {
                                let mut b = actor(ki);
                                for &o in &ih {
                                    (b.op)(o);
                                }
                                b
                            }
                        };
                        let mut b = if early { Some(make()) } else { None };
                        let got: Rc<Cell<Option<(u64, u64)>>> = Rc::new(Cell::new(None));
                        let (got2, il, mut c) = (got.clone(), *il, 0usize);
                        let r = hooked(
                            Box::new(move || {
                                c += 1;
                                if c == at {
                                    let mut b = b.take().unwrap_or_else(&make);
                                    let r = (b.op)(il);
                                    got2.set(Some((r, (b.look)())));
                                }
                            }),
                            || (a.op)(*last),
                        );
                        acc.step(2);
                        if (r, (a.look)()) != (want, want_look) {
                            return Err(format!(
                                "an operation of a {} tree ({:?}) at storage access {at} changed the outcome: it differs from the same tree alone",
                                KINDS[*ki], si
                            ));
                        }
                        match got.get() {
                            Some(g) if g == (*wr, *wl) => {}
                            Some(_) => {
                                return Err(format!(
                                    "the {} tree with operations {:?} run at storage access {at} differs from the same tree alone",
                                    KINDS[*ki], si
                                ))
                            }
                            None => return Err(format!("the operation made fewer than {at} storage accesses, {calls} alone")),
                        }
                    }
                }
            }
            // and a step of another tree at every one of its accesses
            for ki in 0..KINDS.len() {
                let mut a = actor(*ko);
                for &o in hist {
                    (a.op)(o);
                }
                let b = Rc::new(RefCell::new(actor(ki)));
                let (b2, mut c) = (b.clone(), 0);
                let r = hooked(
                    Box::new(move || {
                        (b2.borrow_mut().op)(c % NOPS[ki]);
                        c += 1;
                    }),
                    || (a.op)(*last),
                );
                let mut solo = actor(ki);
                (0..calls).for_each(|c| drop((solo.op)(c % NOPS[ki])));
                if (r, (a.look)()) != (want, want_look) || (b.borrow_mut().look)() != (solo.look)() {
                    return Err(format!("steps of a {} tree at every storage access: an outcome differs", KINDS[ki]));
                }
                acc.step(calls as u64);
            }
            acc.state(&(ko, so));
            acc.trace(1);
            Ok(())
        },
        show,
    ));
    }
    // proofs inside proofs of the same tree
    let max = t.pick(34u64, 80);
    v.push(Space::new(
        format!("a proof or root of the same tree asked for at each storage access of a proof, every size up to {max}"),
        max,
        move |j, acc| {
            let n = max - j;
            let mut st = Lend::<BTab>::new();
            let mut w = binary::MerkleTree::<BTab, _>::new(&mut st);
            for k in 0..n {
                w.push(&data(1, k)).map_err(|e| format!("{:?}", e))?;
            }
            drop(w);
            let t = Rc::new(binary::MerkleTree::<BTab, _>::load(st, n).map_err(|e| format!("load: {:?}", e))?);
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let want: Rc<Vec<_>> = Rc::new((0..n).map(|i| (m.root(), m.proof(i))).collect());
            for i in 0..n {
                acc.beat();
                let calls = Rc::new(Cell::new(0usize));
                let c2 = calls.clone();
                let p = hooked(Box::new(move || c2.set(c2.get() + 1)), || t.prove(i)).map_err(|e| format!("{:?}", e))?;
                if p != want[i as usize] {
                    return Err(format!("proof of {i} of {n} differs from the audit path"));
                }
                for at in 1..=calls.get() {
                    for k in 0..n {
                        let (t2, w2, mut c) = (t.clone(), want.clone(), 0);
                        let bad: Rc<RefCell<Option<String>>> = Rc::default();
                        let b2 = bad.clone();
                        let p = hooked(
                            Box::new(move || {
                                c += 1;
                                if c == at {
                                    match t2.prove(k) {
                                        Ok(p) if p == w2[k as usize] && t2.root() == p.0 => {}
                                        r => *b2.borrow_mut() = Some(format!("{:?}", r.map(|p| p.1.len()))),
                                    }
                                }
                            }),
                            || t.prove(i),
                        );
                        if let Some(b) = bad.borrow().as_ref() {
                            return Err(format!("prove({k}) inside prove({i}) of {n} leaves, at access {at}: {b}"));
                        }
                        match p {
                            Ok(p) if p == want[i as usize] => {}
                            _ => return Err(format!("prove({i}) of {n} leaves with prove({k}) inside it, at access {at}, differs")),
                        }
                        acc.step(2);
                    }
                }
                acc.state(&("readers", n, i));
            }
            acc.trace(n);
            Ok(())
        },
        move |j| format!("{} leaves", max - j),
    ));
    // two threads, every order of their storage accesses
    let cap = t.pick(13usize, 18);
    let situations: Arc<Vec<(usize, Vec<usize>, usize)>> = Arc::new(
        [
            (0, vec![0]),
            (0, vec![0, 1, 0, 0]),
            (0, vec![0, 1, 0, 3]),
            (0, vec![0, 1, 0, 1, 2]),
            (0, vec![0, 1, 0, 1, 1, 4]),
            (0, vec![0, 1, 0, 5]),
            (0, vec![0, 1, 0, 1, 0, 1, 0, 1]),
            (0, vec![0; 7].into_iter().chain([2]).collect()),
            (0, vec![1; 13].into_iter().chain([3]).collect()),
            (1, vec![0]),
            (1, vec![0, 2]),
            (1, vec![2, 0, 2]),
            (1, vec![0, 2, 4]),
            (1, vec![0, 2, 5]),
            (1, vec![0, 2, 2]),
            (2, vec![0]),
            (2, vec![0, 1, 2, 2]),
            (2, vec![0, 1, 2, 3]),
            (2, vec![0, 1, 2, 0, 1, 2, 0, 3]),
            (2, vec![0, 1, 2, 0, 1, 2, 0, 1]),
        ]
        .into_iter()
        .map(|(k, s)| {
            let c = alone(k, &s).2;
            (k, s, c)
        })
        .collect(),
    );
    let ns = situations.len() as u64;
    let s2 = situations.clone();
    v.push(Space::new(
        format!("two trees on two threads, every order of their storage accesses (up to {cap} together)"),
        ns * ns,
        move |i, acc| {
            let (a, b) = (&situations[(i / ns) as usize], &situations[(i % ns) as usize]);
            if a.2 + b.2 > cap {
                acc.note("pairs with too many storage accesses left out", 1);
                return Ok(());
            }
            let want = [alone(a.0, &a.1), alone(b.0, &b.1)];
            let os = orders(a.2 + 1, b.2 + 1);
            let side = |me: usize, s: &(usize, Vec<usize>, usize), g: &Arc<Gate>| -> Result<(u64, u64), String> {
                let mut x = actor(s.0);
                let (last, hist) = s.1.split_last().unwrap();
                for &o in hist {
                    (x.op)(o);
                }
                let r = gated(g, me, || (x.op)(*last))?;
                Ok((r, (x.look)()))
            };
            std::thread::scope(|sc| {
                let (tx, rx) = mpsc::channel::<Arc<Gate>>();
                let (tx2, rx2) = mpsc::channel();
                spawn_in(sc, 4, move || {
                    while let Ok(g) = rx.recv() {
                        if tx2.send(side(1, b, &g)).is_err() {
                            break;
                        }
                    }
                });
                for o in os {
                    acc.beat();
                    let g = Arc::new(Gate { order: o.clone(), pos: AtomicUsize::new(0), done: Default::default() });
                    tx.send(g.clone()).map_err(|_| "the thread is gone")?;
                    let ra = side(0, a, &g);
                    let rb = rx2.recv().map_err(|_| "the thread is gone")?;
                    for (r, w, who) in [(ra, want[0], "first"), (rb, want[1], "second")] {
                        match r {
                            Err(e) => return Err(format!("order {}: the {who} panicked: {e}", order_text(&o))),
                            Ok(x) if x != (w.0, w.1) => {
                                return Err(format!("order {}: the {who} differs from the same tree alone", order_text(&o)))
                            }
                            _ => acc.step(1),
                        }
                    }
                    acc.state(&("threads", i, &o));
                    acc.trace(1);
                }
                Ok(())
            })
        },
        move |i| {
            let (a, b) = (&s2[(i / ns) as usize], &s2[(i % ns) as usize]);
            format!("{} {:?} and {} {:?} on two threads, the last operations together", KINDS[a.0], a.1, KINDS[b.0], b.1)
        },
    ));
    // two threads reading one tree
    let sizes: Vec<u64> = t.pick(vec![2, 3, 4, 5, 6, 7, 8], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]);
    v.push(Space::new(
        "two threads proving from one tree, every order of their storage accesses",
        sizes.len() as u64,
        move |j, acc| {
            let n = sizes[j as usize];
            let mut st = Lend::<BTab>::new();
            let mut w = binary::MerkleTree::<BTab, _>::new(&mut st);
            for k in 0..n {
                w.push(&data(1, k)).map_err(|e| format!("{:?}", e))?;
            }
            drop(w);
            struct Shared<T>(T);
            // one thread runs at a time, handed on with sequentially consistent atomics
            unsafe impl<T> Sync for Shared<T> {}
            let t = Shared(binary::MerkleTree::<BTab, _>::load(st, n).map_err(|e| format!("load: {:?}", e))?);
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let calls: Vec<usize> = (0..n)
                .map(|i| {
                    let c = Rc::new(Cell::new(0));
                    let c2 = c.clone();
                    let _ = hooked(Box::new(move || c2.set(c2.get() + 1)), || t.0.prove(i));
                    c.get()
                })
                .collect();
            let t = &t;
            std::thread::scope(|sc| {
                let (tx, rx) = mpsc::channel::<(u64, Arc<Gate>)>();
                let (tx2, rx2) = mpsc::channel();
                spawn_in(sc, 4, move || {
                    let t = t;
                    while let Ok((k, g)) = rx.recv() {
                        let r = gated(&g, 1, || t.0.prove(k).map_err(|e| format!("{:?}", e)));
                        if tx2.send(r).is_err() {
                            break;
                        }
                    }
                });
                for i in 0..n {
                    for k in 0..n {
                        for o in orders(calls[i as usize] + 1, calls[k as usize] + 1) {
                            acc.beat();
                            let g = Arc::new(Gate { order: o.clone(), pos: AtomicUsize::new(0), done: Default::default() });
                            tx.send((k, g.clone())).map_err(|_| "the thread is gone")?;
                            let ra = gated(&g, 0, || t.0.prove(i).map_err(|e| format!("{:?}", e)));
                            let rb = rx2.recv().map_err(|_| "the thread is gone")?;
                            for (r, x) in [(ra, i), (rb, k)] {
                                match r {
                                    Ok(Ok(p)) if p == (m.root(), m.proof(x)) => acc.step(1),
                                    _ => {
                                        return Err(format!(
                                            "{n} leaves, prove({i}) and prove({k}), order {}: prove({x}) differs",
                                            order_text(&o)
                                        ))
                                    }
                                }
                            }
                            acc.state(&("shared", n, i, k, &o));
                            acc.trace(1);
                        }
                    }
                }
                Ok(())
            })
        },
        |j| format!("tree number {j}"),
    ));
    v
}
