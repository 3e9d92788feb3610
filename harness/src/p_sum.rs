//! C15-C17: the binary Merkle sum tree.
use crate::engine::*;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::sum;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A sum tree and control over its store. The stored node type has no public name, so it is
/// captured by inference inside closures.
pub struct SumTree {
    pub push: Box<dyn FnMut(u64, &[u8]) -> Result<(), Fault>>,
    pub root: Box<dyn FnMut() -> Result<(u64, H), Fault>>,
    /// stored key -> (height, fee, own digest, left child, right child)
    pub dump: Box<dyn Fn() -> BTreeMap<H, (u32, u64, H, Option<H>, Option<H>)>>,
    pub arm: Box<dyn Fn(u64, Mode)>,
    /// disarm, reset the call counter; was the fault hit?
    pub disarm: Box<dyn Fn() -> bool>,
    pub calls: Box<dyn Fn() -> u64>,
    pub peek: Box<dyn Fn(&H) -> Option<Stored>>,
    /// the operations made on the store since the last call
    pub log: Box<dyn Fn() -> Vec<(Op, H)>>,
}
/// (height, fee, own digest, left child, right child)
pub type Stored = (u32, u64, H, Option<H>, Option<H>);
pub fn new_tree() -> SumTree {
    let st = Mem::<NTab<_>>::new();
    let tree = sum::MerkleTree::<NTab<_>, Mem<NTab<_>>>::new(st.clone());
    let t = Rc::new(RefCell::new(tree));
    let t2 = t.clone();
    let (s1, s2, s3, s4, s5, s6) = (st.clone(), st.clone(), st.clone(), st.clone(), st.clone(), st);
    SumTree {
        push: Box::new(move |f, d| t.borrow_mut().push(f, d)),
        root: Box::new(move || t2.borrow_mut().root()),
        dump: Box::new(move || {
            s1.0.borrow().map.iter().map(|(k, n)| (*k, (n.height(), n.fee(), *n.hash(), n.left_child_key(), n.right_child_key()))).collect()
        }),
        arm: Box::new(move |n, m| s2.arm(n, m)),
        disarm: Box::new(move || s3.disarm()),
        calls: Box::new(move || s4.calls()),
        peek: Box::new(move |k| s5.peek(k).map(|n| (n.height(), n.fee(), *n.hash(), n.left_child_key(), n.right_child_key()))),
        log: Box::new(move || {
            let l = s6.take_log();
            s6.start_log();
            l
        }),
    }
}

pub fn fees() -> Vec<u64> {
    vec![0, 1, 255, 256, 1 << 32, (1 << 32) - 1, 0x0102_0304_0506_0708, 1 << 62]
}
pub fn datas() -> Vec<Vec<u8>> {
    let a = sum_leaf(1, b"a");
    let b = sum_leaf(0, b"");
    vec![vec![], b"a".to_vec(), vec![0; 8], [&1u64.to_be_bytes()[..], &a.hash, &0u64.to_be_bytes(), &b.hash].concat(), a.hash.to_vec()]
}
fn expect_root(t: &mut SumTree, l: &[SNode]) -> Res {
    let (f, h) = sum_root(l);
    let (gf, gh) = (t.root)().map_err(|e| format!("root failed on a working store: {:?}", e))?;
    if gf as u128 != f {
        return Err(format!("fee total {gf}, expected {f}"));
    }
    if gh != h {
        return Err(format!("root digest {} differs from the specified {}", hx(&gh), hx(&h)));
    }
    Ok(())
}
pub fn same_pair(t: &mut SumTree, m: &SumModel) -> Res {
    let (f, h) = m.root();
    let (gf, gh) = (t.root)().map_err(|e| format!("root failed on a working store: {:?}", e))?;
    if gf as u128 != f {
        return Err(format!("fee total {gf}, expected {f}"));
    }
    if gh != h {
        return Err(format!("root digest {} differs from the specified {}", hx(&gh), hx(&h)));
    }
    Ok(())
}
pub fn push(t: &mut SumTree, l: &mut Vec<SNode>, f: u64, d: &[u8]) -> Res {
    (t.push)(f, d).map_err(|e| format!("push failed on a working store: {:?}", e))?;
    l.push(sum_leaf(f, d));
    Ok(())
}

// ------------------------------------------------------------------ C15

pub fn c15(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // all lists over the fee x data alphabet
    let al: Vec<(u64, Vec<u8>)> = fees().into_iter().flat_map(|f| datas().into_iter().map(move |d| (f, d))).collect();
    // 2^62 appears at most three times in a list of length 3; longer lists use a smaller alphabet
    for (name, al, len) in [
        ("fee x data alphabet", al.clone(), 3usize),
        (
            "reduced alphabet",
            vec![(0, vec![]), (1, vec![]), (0, b"a".to_vec()), (1 << 32, b"a".to_vec()), (0x0102_0304_0506_0708, vec![0; 8])],
            t.pick(8, 9),
        ),
        ("two leaves", vec![(3, vec![]), (5, b"x".to_vec())], t.pick(17, 19)),
        ("two leaves, one without fee", vec![(0, vec![]), (5, b"x".to_vec())], t.pick(16, 18)),
    ] {
        let b = al.len() as u64;
        let al2 = al.clone();
        v.push(Space::new(
            format!("all lists of length {len} over the {name}"),
            b.pow(len as u32),
            move |i, acc| {
                let d = digits(i, b, len);
                let from = first_visit(&d);
                let mut t = new_tree();
                let mut l = vec![];
                for (p, &x) in d.iter().enumerate() {
                    push(&mut t, &mut l, al[x].0, &al[x].1)?;
                    if p >= from {
                        expect_root(&mut t, &l).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                        acc.step(1);
                        acc.state(&sum_root(&l));
                    }
                }
                acc.trace(1);
                Ok(())
            },
            move |i| format!("leaves {:?}", digits(i, b, len).iter().map(|&x| (al2[x].0, hx(&al2[x].1))).collect::<Vec<_>>()),
        ));
    }
    // every size
    let (max, less) = t.pick((140_000u64, 0), (1_100_000, 3));
    v.push(Space::new(
        format!("every size up to {max}, 8 datasets"),
        8,
        move |s, acc| {
            let mut t = new_tree();
            let mut m = SumModel::default();
            same_pair(&mut t, &m)?;
            for n in 1..=max {
                acc.beat();
                let d = crate::p_binary::data(s, n);
                let fee = match s {
                    4 => 0,
                    5 => 1 << (45 - less),
                    6 => (n % 2) << (46 - less),
                    7 => u64::MAX / 3_000_000,
                    _ => n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 22 >> s,
                };
                (t.push)(fee, &d).map_err(|e| format!("push {n} failed on a working store: {:?}", e))?;
                m.push(fee, &d);
                // two datasets are asked only rarely
                if s % 4 != 3 || n % 1041 == 0 || n == max || n.is_power_of_two() {
                    same_pair(&mut t, &m).map_err(|e| format!("{n} leaves: {e}"))?;
                    acc.step(1);
                    acc.state(&(s, m.root()));
                }
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {s}: growing, root after each push"),
    ));
    // far beyond: the leaves repeat with a small period, so few nodes are stored
    let log = t.pick(22u32, 26);
    v.push(Space::new(
        format!("growing to 2^{log} + 3 leaves that repeat with periods 1, 2, 4 and 8"),
        8,
        move |s, acc| {
            let (period, fee) = (1u64 << (s / 2), [1u64, 1 << 37][(s % 2) as usize]);
            let mut t = new_tree();
            // (height, subtree), the shortest last
            let mut m: Vec<(u32, SNode)> = vec![];
            for n in 1..=(1u64 << log) + 3 {
                let d = [(n % period) as u8];
                (t.push)(fee, &d).map_err(|e| format!("push {n} failed on a working store: {:?}", e))?;
                m.push((0, sum_leaf(fee, &d)));
                while m.len() > 1 && m[m.len() - 2].0 == m[m.len() - 1].0 {
                    let (r, l) = (m.pop().unwrap(), m.pop().unwrap());
                    m.push((l.0 + 1, sum_join(&l.1, &r.1)));
                }
                let near = |x: u64| [x, x - 1, x - 2, x + 1, x + 2].iter().any(|y| y.is_power_of_two());
                if n < 5 || near(n) || n % 100_003 == 0 || n.count_ones() == 2 {
                    acc.beat();
                    let mut want = m[m.len() - 1].1.clone();
                    for (_, l) in m.iter().rev().skip(1) {
                        want = sum_join(l, &want);
                    }
                    let got = (t.root)().map_err(|e| format!("root failed on a working store: {:?}", e))?;
                    acc.state(&(s, got));
                    acc.step(1);
                    if (got.0 as u128, got.1) != (want.fee, want.hash) {
                        return Err(format!("{n} leaves: root ({}, {}), expected ({}, {})", got.0, hx(&got.1), want.fee, hx(&want.hash)));
                    }
                }
            }
            acc.step(1 << log);
            acc.trace(1);
            Ok(())
        },
        |s| format!("leaves with period {} and fee {}", 1 << (s / 2), [1u64, 1 << 37][(s % 2) as usize]),
    ));
    // fresh trees asked once
    let max = t.pick(2500u64, 6000);
    v.push(Space::new(
        format!("fresh trees of every size 0..={max}, asked once"),
        max + 1,
        move |n, acc| {
            let mut t = new_tree();
            let mut m = SumModel::default();
            for i in 0..n {
                let d = crate::p_binary::data(9, i);
                (t.push)(i * i + 1, &d).map_err(|e| format!("push {i} failed on a working store: {:?}", e))?;
                m.push(i * i + 1, &d);
            }
            acc.step(n);
            acc.trace(1);
            acc.state(&("fresh", n));
            same_pair(&mut t, &m).map_err(|e| format!("{n} leaves: {e}"))
        },
        |n| format!("{n} pushes then root"),
    ));
    // pairs of fees
    let mut fs: Vec<u64> = vec![];
    for b in 0..64u32 {
        fs.extend([1u64 << b, (1u64 << b) - 1, u64::MAX - (1u64 << b), u64::MAX >> b, 0x0101_0101_0101_0101u64.rotate_left(b)]);
    }
    fs.sort();
    fs.dedup();
    let fs2 = fs.clone();
    let nf = fs.len() as u64;
    v.push(Space::new(
        format!("all pairs of {nf} fees whose total fits, in trees of 2 and 3 leaves"),
        nf * nf,
        move |i, acc| {
            let (a, b) = (fs[(i / nf) as usize], fs[(i % nf) as usize]);
            if a.checked_add(b).is_none() {
                return Ok(());
            }
            let third = (u64::MAX - a - b).min(9);
            let mut t = new_tree();
            let mut m = SumModel::default();
            for (f, d) in [(a, &b"p"[..]), (b, &b"q"[..]), (third, &b""[..])] {
                (t.push)(f, d).map_err(|e| format!("push of fee {f} failed on a working store: {:?}", e))?;
                m.push(f, d);
                same_pair(&mut t, &m).map_err(|e| format!("fees {a}, {b}, {third}: {e}"))?;
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&(a, b, "pair"));
            Ok(())
        },
        move |i| format!("fees {} and {}", fs2[(i / nf) as usize], fs2[(i % nf) as usize]),
    ));
    // all patterns of asking for the root in between
    let n = t.pick(15, 18);
    v.push(Space::new(
        format!("all 2^{n} patterns of root queries between {n} pushes"),
        1 << n,
        move |mask, acc| {
            let mut t = new_tree();
            let mut l = vec![];
            for j in 0..n {
                if mask >> j & 1 == 1 {
                    expect_root(&mut t, &l).map_err(|e| format!("{mask:#b} before push {j}: {e}"))?;
                    if mask >> ((j + 3) % n) & 1 == 1 {
                        expect_root(&mut t, &l).map_err(|e| format!("{mask:#b} before push {j}, again: {e}"))?;
                    }
                }
                push(&mut t, &mut l, 1 << (j * 3), &[j as u8; 3])?;
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&(mask, n));
            expect_root(&mut t, &l).map_err(|e| format!("{mask:#b}: {e}"))?;
            expect_root(&mut t, &l).map_err(|e| format!("{mask:#b} again: {e}"))
        },
        move |m| format!("root asked before pushes {m:#b}"),
    ));
    // fees at every bit, data of every length
    v.push(Space::new(
        "single fee bits x positions",
        64 * 17,
        |i, acc| {
            let (bit, pos) = (i % 64, i / 64);
            let mut t = new_tree();
            let mut l = vec![];
            for j in 0..17 {
                push(&mut t, &mut l, if j == pos { 1 << bit } else { j }, &[1, 2, 3])?;
            }
            acc.step(17);
            acc.trace(1);
            acc.state(&sum_root(&l));
            expect_root(&mut t, &l)
        },
        |i| format!("fee 2^{} at leaf {}", i % 64, i / 64),
    ));
    let lens = crate::p_binary::lengths(t);
    let l2 = lens.clone();
    v.push(Space::new(
        "data lengths",
        lens.len() as u64 * 2,
        move |i, acc| {
            let (n, fill) = (lens[i as usize / 2], [0u8, 0xff][i as usize % 2]);
            let mut t = new_tree();
            let mut l = vec![];
            for (f, extra) in [(0, 0), (u32::MAX as u64, 1), (7, 0)] {
                push(&mut t, &mut l, f, &vec![fill; n + extra])?;
                expect_root(&mut t, &l).map_err(|e| format!("data length {n}: {e}"))?;
                acc.step(1);
                acc.state(&sum_root(&l));
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("data of {} bytes", l2[i as usize / 2]),
    ));
    // totals at and beyond 64 bits: never a smaller number
    let big: Vec<u64> = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62];
    let b = big.len() as u64;
    let len = t.pick(6, 7);
    let big2 = big.clone();
    v.push(Space::new(
        format!("all lists of length {len} over fees around 2^64 (totals that fit and totals that do not)"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let mut t = new_tree();
            let mut l: Vec<SNode> = vec![];
            let mut total = 0u128;
            for (p, &x) in d.iter().enumerate() {
                total += big[x] as u128;
                let r = guard(|| (t.push)(big[x], &[p as u8]));
                acc.step(1);
                match r {
                    Ok(Ok(())) => {}
                    other if total <= u64::MAX as u128 => {
                        return Err(format!("push number {p} of fees with the total {total} failed: {:?}", other))
                    }
                    _ => return Ok(()), // refused: fine
                }
                l.push(sum_leaf(big[x], &[p as u8]));
                match guard(|| (t.root)()) {
                    Ok(Ok((f, h))) => {
                        if f as u128 != total {
                            return Err(format!(
                                "fee total of {:?} reported as {f}, it is {total}",
                                &d[..=p].iter().map(|&x| big[x]).collect::<Vec<_>>()
                            ));
                        }
                        if h != sum_root(&l).1 {
                            return Err("wrong root digest".into());
                        }
                    }
                    other if total <= u64::MAX as u128 => return Err(format!("root with the total {total} failed: {:?}", other)),
                    _ => return Ok(()), // refused: fine
                }
                acc.state(&(total, p, i));
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("fees {:?}", digits(i, b, len).iter().map(|&x| big2[x]).collect::<Vec<_>>()),
    ));
    v.push(crate::p_special::sum_space(t, |tree, l, _| expect_root(tree, l)));
    v
}

// ------------------------------------------------------------------ C16

pub type Dump = BTreeMap<H, (u32, u64, H, Option<H>, Option<H>)>;
pub fn stored(d: &Dump, l: &[SNode]) -> Res {
    let mut nodes = vec![];
    sum_tree(l, &mut nodes);
    for n in nodes {
        let want = (n.height, n.fee as u64, n.hash, n.children.map(|c| c.0), n.children.map(|c| c.1));
        match d.get(&n.hash) {
            None => return Err(format!("node {} of height {} is not stored", hx(&n.hash), n.height)),
            Some(g) if *g != want => {
                return Err(format!(
                    "node {} is stored with height {}, fee {}, children {:?}; expected height {}, fee {}, children {:?}",
                    hx(&n.hash),
                    g.0,
                    g.1,
                    (g.3.map(|x| hx(&x)), g.4.map(|x| hx(&x))),
                    n.height,
                    n.fee,
                    n.children.map(|c| (hx(&c.0), hx(&c.1)))
                ))
            }
            _ => {}
        }
    }
    Ok(())
}
fn kept(old: &Dump, new: &Dump) -> Res {
    for (k, x) in old {
        if new.get(k) != Some(x) {
            return Err(format!("the stored node {} was changed or removed", hx(k)));
        }
    }
    for (k, x) in new {
        if x.2 != *k {
            return Err(format!("the node filed under {} has the digest {}", hx(k), hx(&x.2)));
        }
    }
    Ok(())
}
pub fn c16(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let al: Vec<(u64, Vec<u8>)> =
        vec![(0, vec![]), (1, vec![]), (0, b"a".to_vec()), (1 << 32, b"a".to_vec()), (0x0102_0304_0506_0708, vec![0; 8])];
    for (name, al, len) in
        [("five leaf contents", al, t.pick(7usize, 8)), ("two leaf contents", vec![(3, vec![]), (5, b"x".to_vec())], t.pick(14, 16))]
    {
        let b = al.len() as u64;
        let al2 = al.clone();
        v.push(Space::new(
            format!("all lists of length {len} over {name}"),
            b.pow(len as u32),
            move |i, acc| {
                let d = digits(i, b, len);
                let from = first_visit(&d);
                let mut t = new_tree();
                let mut l = vec![];
                let mut prev = Dump::new();
                for (p, &x) in d.iter().enumerate() {
                    push(&mut t, &mut l, al[x].0, &al[x].1)?;
                    if p >= from {
                        let ctx = |e: String| format!("leaves {:?}: {e}", &d[..=p]);
                        let mid = (t.dump)();
                        kept(&prev, &mid).map_err(|e| ctx(format!("push: {e}")))?;
                        expect_root(&mut t, &l).map_err(ctx)?;
                        let now = (t.dump)();
                        kept(&mid, &now).map_err(|e| ctx(format!("root: {e}")))?;
                        stored(&now, &l).map_err(ctx)?;
                        prev = now;
                        acc.step(2);
                        acc.state(&(sum_root(&l), prev.len()));
                    }
                }
                acc.trace(1);
                Ok(())
            },
            move |i| format!("leaves {:?}", digits(i, b, len).iter().map(|&x| (al2[x].0, hx(&al2[x].1))).collect::<Vec<_>>()),
        ));
    }
    // large: the nodes of each new perfect subtree and of the spine to the root
    let max = t.pick(100_000u64, 1_100_000);
    v.push(Space::new(
        format!("new nodes and all writes at every size up to {max}"),
        4,
        move |s, acc| {
            let mut t = new_tree();
            let mut m = SumModel::default();
            let mut mirror: std::collections::HashMap<H, Stored> = Default::default();
            (t.log)();
            for n in 1..=max {
                acc.beat();
                let d = if s == 2 { vec![1] } else { crate::p_binary::data(s, n) };
                let fee = if s == 2 { 1 } else { n * 31 };
                let mut writes = |t: &SumTree, what: &str| -> Res {
                    for (op, k) in (t.log)() {
                        match op {
                            Op::Remove => return Err(format!("{n} leaves: {what} removed {}", hx(&k))),
                            Op::Insert => {
                                let now = (t.peek)(&k).ok_or("gone")?;
                                if now.2 != k {
                                    return Err(format!("{n} leaves: {what} filed a node with the digest {} under {}", hx(&now.2), hx(&k)));
                                }
                                if *mirror.entry(k).or_insert(now) != now {
                                    return Err(format!("{n} leaves: {what} changed the stored node {}", hx(&k)));
                                }
                            }
                            _ => {}
                        }
                    }
                    Ok(())
                };
                (t.push)(fee, &d).map_err(|e| format!("push {n}: {:?}", e))?;
                m.push(fee, &d);
                writes(&t, "push")?;
                if s == 3 && n % 100 != 0 && !n.is_power_of_two() {
                    continue;
                }
                same_pair(&mut t, &m).map_err(|e| format!("{n} leaves: {e}"))?;
                writes(&t, "root")?;
                let mut want: Vec<SNode> = vec![];
                for (h, l) in m.levels.iter().enumerate() {
                    if n % (1 << h) == 0 {
                        want.push(l[l.len() - 1].clone());
                    }
                }
                m.spine(&mut want);
                for x in want {
                    let w = (x.height, x.fee as u64, x.hash, x.children.map(|c| c.0), x.children.map(|c| c.1));
                    if (t.peek)(&x.hash) != Some(w) {
                        return Err(format!(
                            "{n} leaves: node {} of height {} is stored as {:?}",
                            hx(&x.hash),
                            x.height,
                            (t.peek)(&x.hash).map(|g| (g.0, g.1))
                        ));
                    }
                }
                acc.step(2);
                acc.state(&(s, n, "large"));
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {s}, growing"),
    ));
    let max = t.pick(700u64, 1400);
    v.push(Space::new(
        format!("every size up to {max}"),
        4,
        move |s, acc| {
            let mut t = new_tree();
            let mut l = vec![];
            let mut prev = Dump::new();
            for n in 1..=max {
                acc.beat();
                let d = if s == 2 { vec![1] } else { crate::p_binary::data(s, n) };
                push(&mut t, &mut l, if s == 2 { 1 } else { n * n }, &d)?;
                let mid = (t.dump)();
                kept(&prev, &mid).map_err(|e| format!("push {n}: {e}"))?;
                expect_root(&mut t, &l).map_err(|e| format!("{n} leaves: {e}"))?;
                let now = (t.dump)();
                kept(&mid, &now).map_err(|e| format!("root of {n}: {e}"))?;
                stored(&now, &l).map_err(|e| format!("{n} leaves: {e}"))?;
                prev = now;
                acc.step(2);
                acc.state(&(s, sum_root(&l)));
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {s}: stored nodes after each push and root"),
    ));
    // root asked only once, at the end
    let max = t.pick(800u64, 1600);
    v.push(Space::new(
        format!("fresh trees of every size up to {max}, root asked once"),
        max,
        move |n, acc| {
            let n = n + 1;
            let mut t = new_tree();
            let mut l = vec![];
            for i in 0..n {
                push(&mut t, &mut l, i + 1, &crate::p_binary::data(5, i))?;
            }
            let mid = (t.dump)();
            expect_root(&mut t, &l).map_err(|e| format!("{n} leaves: {e}"))?;
            let now = (t.dump)();
            kept(&mid, &now)?;
            stored(&now, &l).map_err(|e| format!("{n} leaves: {e}"))?;
            acc.step(n + 1);
            acc.trace(1);
            acc.state(&("once", n));
            Ok(())
        },
        |n| format!("{} leaves then root", n + 1),
    ));
    v.push(crate::p_special::sum_space(t, |tree, l, _| {
        expect_root(tree, l)?;
        let d = (tree.dump)();
        kept(&Dump::new(), &d)?;
        stored(&d, l)
    }));
    v
}

// ------------------------------------------------------------------ C17

pub fn c17(t: Tier) -> Vec<Space<'static>> {
    let mut sizes: Vec<u64> = (0..=t.pick(140u64, 270)).collect();
    sizes.extend([255, 256, 511, 512, 767, 1023]);
    sizes.sort();
    sizes.dedup();
    let sizes2 = sizes.clone();
    let ns = sizes.len() as u64;
    let two = t.thorough();
    let mut v = vec![];
    // what = 0: push fails; 1: root fails
    v.push(Space::new(
        format!("every failing call of push and root on {ns} sizes up to 1023, with and without earlier root queries"),
        ns * 4,
        move |i, acc| {
            let (n, asked, pushing) = (sizes[(ns - 1 - i / 4) as usize], i & 1 == 1, i & 2 == 0);
            let fee = |j: u64| j * 3 + 1;
            let make = || -> Result<(SumTree, Vec<SNode>), String> {
                let mut t = new_tree();
                let mut l = vec![];
                for j in 0..n {
                    push(&mut t, &mut l, fee(j), &crate::p_binary::data(1, j))?;
                    if asked {
                        expect_root(&mut t, &l)?;
                    }
                }
                Ok((t, l))
            };
            let op = |t: &mut SumTree, set: u64| -> Result<(), Fault> {
                if pushing {
                    (t.push)(fee(n) + set, &crate::p_binary::data(set, n))
                } else {
                    (t.root)().map(|_| ())
                }
            };
            let opname = if pushing { "push" } else { "root" };
            let dry = {
                let (mut t, _) = make()?;
                (t.disarm)();
                op(&mut t, 5).map_err(|e| format!("{:?}", e))?;
                (t.calls)()
            };
            for c in 1..=dry {
                for mode in [Mode::Before, Mode::After, Mode::Down] {
                    let ctx = |e: String| format!("{n} leaves, storage call {c} of {dry} of {opname} failing ({mode:?}): {e}");
                    let fail = |t: &mut SumTree, set: u64, c: u64, mode: Mode| -> Result<bool, String> {
                        (t.arm)(c, mode);
                        let r = guard(|| op(t, set)).map_err(|p| format!("panicked: {p}"))?;
                        let hit = (t.disarm)();
                        match r {
                            Ok(()) if hit => Err("reported success".into()),
                            Ok(()) => Ok(false),
                            Err(e) if e != Fault(c) => Err(format!("reported {:?}", e)),
                            Err(_) => Ok(true),
                        }
                    };
                    for follow in 0..4u64 {
                        acc.beat();
                        acc.eval(1);
                        acc.state(&(i, c, mode as u8, follow));
                        let (mut t, mut l) = make()?;
                        if !fail(&mut t, 5, c, mode).map_err(ctx)? {
                            continue;
                        }
                        if follow != 1 {
                            guard(|| expect_root(&mut t, &l))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")))
                                .map_err(|e| ctx(format!("afterwards: {e}")))?;
                        }
                        for j in 0..4u64 {
                            let set = if follow == 2 { 6 } else { 5 };
                            let r = guard(|| push(&mut t, &mut l, fee(n + j) + set, &crate::p_binary::data(set, n + j)));
                            r.unwrap_or_else(|p| Err(format!("panic: {p}"))).map_err(|e| ctx(format!("then push {}: {e}", j + 1)))?;
                            if follow != 3 || j == 3 {
                                guard(|| expect_root(&mut t, &l))
                                    .unwrap_or_else(|p| Err(format!("panic: {p}")))
                                    .map_err(|e| ctx(format!("then {} pushes: {e}", j + 1)))?;
                            }
                        }
                        let d = (t.dump)();
                        stored(&d, &l).map_err(|e| ctx(format!("then 4 pushes: {e}")))?;
                        acc.step(6);
                    }
                    if two || n < 33 {
                        for c2 in 1..=dry {
                            acc.eval(1);
                            acc.state(&(i, c, mode as u8, "second", c2));
                            let (mut t, mut l) = make()?;
                            if !fail(&mut t, 5, c, mode).map_err(ctx)? {
                                continue;
                            }
                            fail(&mut t, 7, c2, Mode::Before).map_err(|e| ctx(format!("then failing again at call {c2}: {e}")))?;
                            for j in 0..2 {
                                push(&mut t, &mut l, fee(n + j), &crate::p_binary::data(8, n + j)).map_err(ctx)?;
                                expect_root(&mut t, &l)
                                    .map_err(|e| ctx(format!("then failing again at call {c2}, then {} pushes: {e}", j + 1)))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| {
            format!(
                "{} leaves{}, {} with each storage call failing",
                sizes2[(ns - 1 - i / 4) as usize],
                if i & 1 == 1 { ", root asked after each push" } else { "" },
                if i & 2 == 0 { "push" } else { "root" }
            )
        },
    ));
    // histories of working and failing operations
    let len = t.pick(6, 7);
    let b = 9u64;
    v.push(Space::new(
        format!(
            "every history of length {len} of push and root, working or failing at their first four calls, from 0, 1, 3, 7 and 21 leaves"
        ),
        5 * b.pow(len as u32),
        move |i, acc| {
            let n = [0u64, 1, 3, 7, 21][(i / b.pow(len as u32)) as usize];
            let d = digits(i % b.pow(len as u32), b, len);
            let mut t = new_tree();
            let mut m = SumModel::default();
            for j in 0..n {
                (t.push)(j + 2, &[j as u8]).map_err(|e| format!("{:?}", e))?;
                m.push(j + 2, &[j as u8]);
            }
            for (p, &x) in d.iter().enumerate() {
                // 0..4 push failing at call x (0: working), 5 root, 6..8 root failing at its first three calls
                let (pushing, at) = if x < 5 { (true, x) } else { (false, x - 5) };
                let mode = if p % 2 == 0 { Mode::Before } else { Mode::After };
                let data = [x as u8, p as u8];
                let fee = 1u64 << (p * 4);
                if at > 0 {
                    (t.arm)(at as u64, mode);
                }
                let r = guard(|| if pushing { (t.push)(fee, &data).map(|_| None) } else { (t.root)().map(Some) });
                let hit = (t.disarm)();
                let ctx = |e: String| format!("{n} leaves, {:?} at step {p}: {e}", d);
                match r {
                    Err(e) => return Err(ctx(format!("panic: {e}"))),
                    Ok(Err(e)) if !hit || e != Fault(at as u64) => return Err(ctx(format!("reported {:?}", e))),
                    Ok(Err(_)) => {
                        acc.eval(1);
                    }
                    Ok(Ok(_)) if hit => return Err(ctx("reported success".into())),
                    Ok(Ok(None)) => m.push(fee, &data),
                    Ok(Ok(Some((f, h)))) => {
                        if (f as u128, h) != m.root() {
                            return Err(ctx("the root is not that of the leaves whose push succeeded".into()));
                        }
                    }
                }
                acc.step(1);
            }
            same_pair(&mut t, &m).map_err(|e| format!("{n} leaves, {:?}: {e}", d))?;
            // and the nodes are all there
            let dump = (t.dump)();
            if m.len() > 0 {
                stored(&dump, m.leaves()).map_err(|e| format!("{n} leaves, {:?}: {e}", d))?;
            }
            acc.state(&(n, &d));
            Ok(())
        },
        move |i| {
            format!(
                "start {}: {:?} (0 push, 1-4 push failing at that call, 5 root, 6-8 root failing)",
                i / b.pow(len as u32),
                digits(i % b.pow(len as u32), b, len)
            )
        },
    ));
    // one tree growing, every push failing at each of its calls before it works
    let upto = t.pick(140_000u64, 1_100_000);
    v.push(Space::new(
        format!("trees growing to {upto} leaves, each push failing at each of its calls before it works, roots failing in between"),
        4,
        move |i, acc| {
            let modes = [Mode::Before, Mode::After, Mode::Down];
            let mut t = new_tree();
            let mut m = SumModel::default();
            for n in 0..upto {
                let d = crate::p_binary::data(i % 2, n);
                let fee = n + i;
                for c in 1.. {
                    let mode = if i < 3 { modes[i as usize] } else { modes[c as usize % 3] };
                    (t.arm)(c, mode);
                    let r = guard(|| (t.push)(fee, &d));
                    let hit = (t.disarm)();
                    let ctx = |e: String| format!("{n} leaves, push failing at storage call {c} ({mode:?}): {e}");
                    match r {
                        Err(p) => return Err(ctx(format!("panicked: {p}"))),
                        Ok(Ok(())) if hit => return Err(ctx("reported success".into())),
                        Ok(Err(e)) if !hit || e != Fault(c) => return Err(ctx(format!("reported {:?}", e))),
                        Ok(Err(_)) => {
                            acc.eval(1);
                            acc.state(&("grow", i, n, c));
                            // the root is asked in half the cases: asking must not be what repairs the tree
                            if (n + c + i) % 2 == 0 {
                                same_pair(&mut t, &m).map_err(|e| ctx(format!("afterwards: {e}")))?;
                            }
                        }
                        Ok(Ok(())) => break,
                    }
                }
                m.push(fee, &d);
                acc.step(1);
                if n < 64 || (n + 1).trailing_zeros() > 4 || n % 61 == 0 {
                    acc.beat();
                    for c in 1.. {
                        let mode = modes[(c + n) as usize % 3];
                        (t.arm)(c, mode);
                        let r = guard(|| (t.root)());
                        let hit = (t.disarm)();
                        let ctx = |e: String| format!("{} leaves, root failing at storage call {c} ({mode:?}): {e}", n + 1);
                        match r {
                            Err(p) => return Err(ctx(format!("panicked: {p}"))),
                            Ok(Ok(_)) if hit => return Err(ctx("reported success".into())),
                            Ok(Err(e)) if !hit || e != Fault(c) => return Err(ctx(format!("reported {:?}", e))),
                            Ok(Err(_)) => {
                                acc.eval(1);
                                acc.state(&("grow root", i, n, c));
                            }
                            Ok(Ok(_)) => break,
                        }
                    }
                    same_pair(&mut t, &m).map_err(|e| format!("{} leaves, after failing pushes and roots: {e}", n + 1))?;
                }
            }
            acc.trace(1);
            Ok(())
        },
        |i| format!("growth number {i}"),
    ));
    v
}
