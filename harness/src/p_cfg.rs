//! C24: one exhaustive battery, run in four builds of the library and compared line by line.
use crate::engine::*;
use crate::p_binary::{self, data, huge_counts, structured_counts, structured_indices};
use crate::p_sparse::{self, alphabet, seq_upto, shapes, shows, Live};
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::common::{Position, StorageMap};
use fuel_merkle::storage::{StorageInspect, StorageMutate};
use fuel_merkle::{binary, sparse};
use std::collections::HashSet;

pub type Out<'a> = &'a mut dyn FnMut(&str, String);
type Section = (&'static str, fn(Tier, Out));

fn say<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String {
    match guard(f) {
        Ok(t) => format!("{:?}", t),
        Err(_) => "panic".into(),
    }
}

pub fn sections() -> Vec<Section> {
    vec![
        ("positions", positions),
        ("paths", paths),
        ("binary trees", binary_trees),
        ("binary lists", binary_lists),
        ("binary counts", binary_counts),
        ("virtual trees", virtual_trees),
        ("sparse trees", sparse_trees),
        ("sparse depths", sparse_depths),
        ("sparse damage", sparse_damage),
        ("sum trees", sum_trees),
        ("faults", faults),
        ("storage map", storage_map),
        ("contents", contents),
        ("special digests", special),
        ("large binary trees", large_binary),
        ("large sum trees", large_sum),
        ("large sparse trees", large_sparse),
        ("binary histories", binary_histories),
        ("sum histories", sum_histories),
        ("sparse histories", sparse_histories),
        ("chains", chains),
        ("large storage map", large_map),
    ]
}

fn positions(t: Tier, o: Out) {
    let mut one = |h: u32, i: u64| {
        let x = ((i as u128) * (1u128 << (h + 1)) + (1u128 << h) - 1) as u64;
        let p = Position::from_in_order_index(x);
        let mut s = say(|| (p.height(), p.is_leaf(), p.is_node()));
        if h > 0 {
            s += &say(|| (p.left_child(), p.right_child()));
        } else {
            s += &say(|| (p.leaf_index(), Position::from_leaf_index(i)));
        }
        if h < 63 {
            s += &say(|| p.parent());
            s += &say(|| p.sibling());
        }
        if h < 62 {
            s += &say(|| p.uncle());
        }
        o(&format!("{x}"), s)
    };
    for h in 0..64u32 {
        let n = 1u128 << (63 - h);
        let mut is: Vec<u128> = (0..t.pick(500u128, 20000)).collect();
        for k in 0..=(63 - h) {
            for d in 0..4u128 {
                is.extend([(1u128 << k) + d, (1u128 << k).wrapping_sub(d), n.wrapping_sub((1u128 << k) + d)]);
            }
        }
        is.extend((0..500u128).map(|d| n.wrapping_sub(1 + d)));
        is.retain(|i| *i < n);
        is.sort();
        is.dedup();
        for i in is {
            one(h, i as u64);
        }
    }
}
fn path_line(start: u64, i: u64, n: u64) -> String {
    say(|| Position::from_in_order_index(start).path(&Position::from_leaf_index(i), n).iter().collect::<Vec<_>>())
}
fn paths(t: Tier, o: Out) {
    for n in 1..t.pick(70u64, 200) {
        for i in 0..n {
            for s in [n.next_power_of_two() - 1, (n + 1).next_power_of_two() - 1, (1 << 63) - 1] {
                o(&format!("path {s} {i} {n}"), path_line(s, i, n));
            }
        }
    }
    for n in structured_counts(Tier::Quick) {
        if n == 0 {
            continue;
        }
        for i in structured_indices(n).into_iter().step_by(7) {
            o(&format!("path {i} {n}"), path_line((n + 1).next_power_of_two() - 1, i, n));
        }
    }
}
fn binary_trees(t: Tier, o: Out) {
    let st = p_binary::Store::new();
    let mut tree = p_binary::Tree::new(st.clone());
    let mut im = binary::in_memory::MerkleTree::new();
    for n in 0..t.pick(180u64, 500) {
        o(&format!("root {n}"), say(|| (tree.root(), im.root())));
        for i in (0..n).chain([n, n + 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]) {
            o(&format!("prove {i} of {n}"), say(|| (tree.prove(i), im.prove(i))));
        }
        let d = data(1, n);
        o(&format!("push {n}"), say(|| tree.push(&d)));
        im.push(&d);
        o(&format!("store {n}"), format!("{:x}", fp(&st.0.borrow().map)));
    }
}
fn binary_lists(t: Tier, o: Out) {
    let al = p_binary::adversarial();
    let b = al.len() as u64;
    let len = t.pick(3, 4);
    for i in 0..b.pow(len as u32) {
        let d = digits(i, b, len);
        let st = p_binary::Store::new();
        let mut tree = p_binary::Tree::new(st.clone());
        for &x in &d {
            let _ = tree.push(&al[x]);
        }
        let last = len as u64 - 1;
        o(&format!("{:?}", d), say(|| (tree.root(), tree.prove(0), tree.prove(last))) + &format!("{:?}", st.0.borrow().map));
    }
}
fn binary_counts(t: Tier, o: Out) {
    for n in 0..t.pick(20u64, 60) {
        let (st, _) = p_binary::filled(1, n);
        for k in (0..n + 40).chain(huge_counts(n)) {
            o(&format!("load {k} of {n}"), say(|| p_binary::Tree::load(st.clone(), k).map(|t| t.root())));
        }
    }
}
fn virtual_trees(t: Tier, o: Out) {
    let counts = structured_counts(Tier::Quick);
    let stride = t.pick(3, 1);
    for n in counts.into_iter().rev().step_by(stride) {
        let st = Virt::new(n);
        match guard(|| binary::MerkleTree::<BTab, Virt>::load(st.clone(), n)) {
            Err(_) => o(&format!("load {n}"), "panic".into()),
            Ok(Err(e)) => o(&format!("load {n}"), format!("{:?}", e)),
            Ok(Ok(mut tree)) => {
                let mut c = n;
                for j in 0..4u64 {
                    o(&format!("root {n}+{j}"), say(|| tree.root()));
                    for i in structured_indices(c).into_iter().step_by(11).chain([c, u64::MAX]) {
                        o(&format!("prove {i} of {n}+{j}"), say(|| tree.prove(i)));
                    }
                    if c >= (1 << 63) - 1 {
                        break;
                    }
                    o(&format!("push {n}+{j}"), say(|| tree.push(&data(1, j))));
                    c += 1;
                }
                o(&format!("writes {n}"), format!("{:?}", st.overlay.borrow()));
            }
        }
    }
}
fn sparse_trees(t: Tier, o: Out) {
    for (name, keys) in shapes() {
        let deep = p_sparse::is_deep(name);
        let al = alphabet(&keys[..3], if deep { 1 } else { 2 }, true, true);
        let max = t.pick(3, if deep { 4 } else { 4 });
        for i in 0..p_sparse::count_upto(al.len() as u64, max) {
            let ops = seq_upto(&al, i, max);
            let mut l = Live::new();
            let r = say(|| ops.iter().map(|x| l.run(x)).collect::<Vec<_>>());
            o(&format!("{name} {}", shows(&ops)), format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()));
        }
    }
}
fn sparse_depths(t: Tier, o: Out) {
    use p_sparse::Op;
    for d in 0..256 {
        for b in 0..t.pick(3, 6) {
            let a = p_sparse::base(b);
            let c = flip(&a, d);
            let mut l = Live::new();
            for op in [
                Op::Up(a, vec![1]),
                Op::Up(c, vec![2]),
                Op::Reload,
                Op::Up(a, vec![3]),
                Op::Del(c),
                Op::Del(c),
                Op::Up(c, vec![4]),
                Op::Del(a),
                Op::Del(c),
                Op::Reload,
            ] {
                let r = say(|| l.run(&op));
                o(&format!("depth {d} base {b} {}", p_sparse::show(&op)), format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()));
            }
        }
    }
}
fn sparse_damage(t: Tier, o: Out) {
    for (name, keys) in shapes() {
        let deep = p_sparse::is_deep(name);
        let al = alphabet(&keys[..3], 1, false, true);
        let max = t.pick(2, 3);
        for i in 0..p_sparse::count_upto(al.len() as u64, max) {
            let h = seq_upto(&al, i, max);
            let Ok(l0) = Live::replay(&h) else { continue };
            let entries: Vec<H> = l0.st.snapshot().keys().cloned().collect();
            for e in entries.iter().step_by(if deep { 61 } else { 1 }) {
                for m in [None, Some(2u8), Some(0xff)] {
                    for op in &al {
                        let Ok(mut l) = Live::replay(&h) else {
                            continue;
                        };
                        let p = l.st.lose(e).unwrap();
                        if let Some(m) = m {
                            l.st.put(e, (p.0, m, p.2, p.3));
                        }
                        let r = say(|| l.run(op));
                        o(
                            &format!("{name} [{}] {} {:?} {}", shows(&h), hx(e), m, p_sparse::show(op)),
                            format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()),
                        );
                    }
                }
            }
        }
    }
}
fn sum_trees(t: Tier, o: Out) {
    let fees = [0u64, 1, 1 << 32, u64::MAX, 1 << 63, (1 << 63) - 1];
    let datas: [&[u8]; 2] = [b"", b"abc"];
    let b = 12u64;
    let len = t.pick(4, 5);
    for i in 0..b.pow(len as u32) {
        let d = digits(i, b, len);
        let mut tree = crate::p_sum::new_tree();
        let mut s = String::new();
        for &x in &d {
            s += &say(|| (tree.push)(fees[x % 6], datas[x / 6]));
            s += &say(|| (tree.root)());
            if s.ends_with("panic") {
                break;
            }
        }
        o(&format!("{:?}", d), format!("{s} {:x}", fp(&(tree.dump)())));
    }
    let mut tree = crate::p_sum::new_tree();
    for n in 0..t.pick(300u64, 2000) {
        o(&format!("push {n}"), say(|| (tree.push)(n * n, &data(1, n))));
        o(&format!("root {n}"), say(|| (tree.root)()) + &format!("{:x}", if n < 100 { fp(&(tree.dump)()) } else { 0 }));
    }
}
fn faults(t: Tier, o: Out) {
    for n in 0..t.pick(18u64, 40) {
        for c in 1..=8 {
            let (st, _) = p_binary::filled(1, n);
            let mut tree = match p_binary::Tree::load(st.clone(), n) {
                Ok(t) => t,
                Err(e) => {
                    o(&format!("load {n}"), format!("{:?}", e));
                    continue;
                }
            };
            st.arm(c, Mode::Before);
            let r = say(|| tree.push(b"x"));
            st.disarm();
            o(&format!("binary {n} call {c}"), r + &say(|| (tree.root(), tree.prove(0))) + &say(|| tree.push(b"y")) + &say(|| tree.root()));
            st.arm(c, Mode::Before);
            let r = say(|| tree.prove(n / 2));
            st.disarm();
            o(&format!("binary prove {n} call {c}"), r);
            st.arm(c, Mode::Before);
            let r = say(|| p_binary::Tree::load(st.clone(), n).map(|t| t.root()));
            st.disarm();
            o(&format!("binary load {n} call {c}"), r);
            let mut s = crate::p_sum::new_tree();
            for j in 0..n {
                let _ = (s.push)(j, b"z");
            }
            (s.arm)(c, Mode::Before);
            let r = say(|| (s.push)(7, b"x"));
            (s.disarm)();
            o(&format!("sum {n} call {c}"), r + &say(|| (s.root)()) + &say(|| (s.push)(8, b"y")) + &say(|| (s.root)()));
        }
    }
    let keys = shapes()[1].1.clone();
    let al = alphabet(&keys[..3], 1, false, true);
    for i in 0..p_sparse::count_upto(al.len() as u64, 2) {
        let h = seq_upto(&al, i, 2);
        for op in &al {
            for c in 1..=14 {
                let Ok(mut l) = Live::replay(&h) else {
                    continue;
                };
                l.st.arm(c, Mode::Before);
                let r = say(|| l.run(op));
                l.st.disarm();
                o(
                    &format!("sparse [{}] {} call {c}", shows(&h), p_sparse::show(op)),
                    format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()) + &say(|| l.run(op)) + &hex(&l.t().root()),
                );
            }
        }
    }
}
fn storage_map(t: Tier, o: Out) {
    let len = t.pick(4, 5);
    let b = 12u64;
    for i in 0..b.pow(len as u32) {
        let mut m = StorageMap::<BTab>::new();
        let mut s = String::new();
        for x in digits(i, b, len) {
            let k = [0u64, 1, u64::MAX][x % 3];
            s += &match x / 3 {
                0 | 1 => say(|| StorageMutate::insert(&mut m, &k, &(x as u64, ZERO))),
                2 => say(|| StorageMutate::remove(&mut m, &k)),
                _ => say(|| (StorageInspect::get(&m, &k).map(|c| c.map(|c| c.into_owned())), StorageInspect::contains_key(&m, &k))),
            };
        }
        o(&format!("{i}"), s);
    }
}
fn contents(t: Tier, o: Out) {
    let k = p_sparse::base(4);
    for len in crate::p_content::lens(t) {
        if len > t.pick(70_000, 2_000_000) {
            continue;
        }
        let fam = crate::p_content::family(len);
        let short = len <= 300;
        let mut bt = p_binary::Tree::new(p_binary::Store::new());
        let mut im = binary::in_memory::MerkleTree::new();
        let mut su = crate::p_sum::new_tree();
        let mut sp = Live::new();
        let mut si = sparse::in_memory::MerkleTree::new();
        for (i, c) in fam.iter().enumerate().filter(|(i, _)| short || i % 7 == 0) {
            let mut r = say(|| (bt.push(c), im.push(c), bt.root(), im.root()));
            r += &say(|| ((su.push)(i as u64, c), (su.root)()));
            r += &say(|| (sp.run(&p_sparse::Op::Up(k, c.clone())), sp.t().root()));
            r += &say(|| (si.update(&k, c), si.root()));
            o(&format!("content {i} of {len} bytes"), r);
        }
    }
}
fn special(_: Tier, o: Out) {
    let values = crate::p_special::texts(&["bleaf", "broot", "sleaf", "sroot"]);
    let all = crate::p_special::sparse_few();
    let b = values.len() as u64;
    for i in 0..b * b * 3 {
        let d = digits(i, b, 3);
        let mut bt = p_binary::Tree::new(p_binary::Store::new());
        let mut su = crate::p_sum::new_tree();
        for &x in &d {
            let r = say(|| (bt.push(&values[x]), bt.root(), bt.prove(0)))
                + &say(|| ((su.push)(crate::p_special::FEE, &values[x]), (su.root)()));
            o(&format!("{:?}", d), r);
        }
    }
    let b = all.len() as u64;
    for i in 0..b * b * b.min(12) {
        let mut l = Live::new();
        let ops: Vec<_> = digits(i, b, 3).into_iter().map(|x| &all[x]).collect();
        let r = say(|| ops.iter().map(|x| l.run(x)).collect::<Vec<_>>());
        o(&format!("sparse {i}"), format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()));
    }
}
fn large_binary(t: Tier, o: Out) {
    for set in 0..2 {
        let st = p_binary::Store::new();
        let mut tree = p_binary::Tree::new(st.clone());
        let mut im = binary::in_memory::MerkleTree::new();
        let max = t.pick(140_000u64, 1_100_000);
        for n in 0..max {
            let d = data(set, n);
            if let Err(e) = tree.push(&d) {
                o(&format!("push {n}"), format!("{:?}", e));
            }
            im.push(&d);
            let c = n + 1;
            if c % 997 == 0 || (c & (c - 1)).count_ones() < 2 || (c + 1).count_ones() < 3 {
                let mut r = say(|| (tree.root(), im.root()));
                for i in [0, 1, n / 3, n / 2, n - n % 2, n, c, n ^ (n & n.wrapping_neg())] {
                    r += &say(|| (tree.prove(i), im.prove(i)));
                }
                r += &say(|| p_binary::Tree::load(st.clone(), c / 2 + 1).map(|t| (t.root(), t.prove(c / 4))));
                o(&format!("{c} leaves"), r);
            }
        }
        o("store", format!("{:x}", fp(&st.0.borrow().map)));
    }
}
fn large_sum(t: Tier, o: Out) {
    for set in 0..2u64 {
        let mut tree = crate::p_sum::new_tree();
        for n in 0..t.pick(140_000u64, 1_100_000) {
            let fee = if set == 0 { n } else { (n % 3) << 40 };
            if let Err(e) = (tree.push)(fee, &data(set, n)) {
                o(&format!("push {n}"), format!("{:?}", e));
            }
            let c = n + 1;
            if c % 997 == 0 || (c & n).count_ones() < 2 {
                o(&format!("{c} leaves"), say(|| (tree.root)()));
            }
        }
        o("store", format!("{:x}", fp(&(tree.dump)())));
    }
}
fn large_sparse(t: Tier, o: Out) {
    for (name, n, key) in p_sparse::families(Tier::Quick) {
        let n = n.min(t.pick(2_000, 20_000));
        let mut l = Live::new();
        let mut im = sparse::in_memory::MerkleTree::new();
        for i in 0..n * 2 {
            let j = (i % n).wrapping_mul(7919) % n;
            let op = match i < n || j % 5 == 0 {
                true => p_sparse::Op::Up(key(j), vec![i as u8, 1]),
                false => p_sparse::Op::Del(key(j)),
            };
            let r = say(|| l.run(&op));
            match &op {
                p_sparse::Op::Up(k, v) => im.update(k, v),
                p_sparse::Op::Del(k) => im.delete(k),
                _ => {}
            }
            if r != "Ok(())" || i % 17 == 0 || i + 1 == n * 2 {
                o(&format!("{name} {i}"), format!("{r} {} {} {:x}", hex(&l.t().root()), hex(&im.root()), l.st.sum()));
            }
        }
    }
}
/// every sequence of working and failing operations; Before, After and Down in turn
fn mode(x: u64) -> Mode {
    [Mode::Before, Mode::After, Mode::Down][(x % 3) as usize]
}
fn binary_histories(t: Tier, o: Out) {
    let len = t.pick(4, 5);
    for start in [0u64, 1, 3, 7, 13] {
        for i in 0..10u64.pow(len) {
            let d = digits(i, 10, len as usize);
            let (st, _) = p_binary::filled(1, start);
            let Ok(mut tree) = p_binary::Tree::load(st.clone(), start) else { continue };
            let mut r = String::new();
            for (p, x) in d.iter().enumerate() {
                if let 1..=3 | 5 | 6 | 8 = x {
                    st.arm([1, 1, 2, 3, 1, 1, 2, 1, 2, 1][*x], mode(i + p as u64));
                }
                r += &match x {
                    0..=3 => say(|| tree.push(&[p as u8, *x as u8])),
                    4..=6 => say(|| tree.prove(p as u64 * 2)),
                    7..=8 => match p_binary::Tree::load(st.clone(), start / 2 + p as u64) {
                        Ok(t) => {
                            tree = t;
                            "loaded".to_string()
                        }
                        Err(e) => format!("{:?}", e),
                    },
                    _ => say(|| tree.root()),
                };
                st.disarm();
            }
            o(&format!("{start} {:?}", d), r + &say(|| tree.root()) + &format!("{:x}", fp(&st.0.borrow().map)));
        }
    }
}
fn sum_histories(t: Tier, o: Out) {
    let len = t.pick(4, 5);
    for start in [0u64, 1, 3, 7, 13] {
        for i in 0..8u64.pow(len) {
            let d = digits(i, 8, len as usize);
            let mut tree = crate::p_sum::new_tree();
            for j in 0..start {
                let _ = (tree.push)(j, &[j as u8]);
            }
            let mut r = String::new();
            for (p, &x) in d.iter().enumerate() {
                if let 1..=4 | 6 | 7 = x {
                    (tree.arm)([1, 1, 2, 3, 4, 1, 1, 2][x], mode(i + p as u64));
                }
                r += &match x {
                    0..=4 => say(|| (tree.push)(x as u64 * 3, &[p as u8])),
                    _ => say(|| (tree.root)()),
                };
                (tree.disarm)();
            }
            o(&format!("{start} {:?}", d), r + &say(|| (tree.root)()) + &format!("{:x}", fp(&(tree.dump)())));
        }
    }
}
fn sparse_histories(t: Tier, o: Out) {
    for (name, keys) in shapes().into_iter().filter(|s| !p_sparse::is_deep(s.0)) {
        let al = alphabet(&keys[..3], 1, false, true);
        let b = al.len() as u64 * 5;
        let len = t.pick(3, 4);
        for i in 0..b.pow(len) {
            let d = digits(i, b, len as usize);
            let mut l = Live::new();
            let mut r = say(|| (l.run(&al[0]), l.run(&al[1])));
            for (p, x) in d.iter().enumerate() {
                let at = x / al.len();
                if at > 0 {
                    l.st.arm([1, 2, 4, 7][at - 1], mode(i + p as u64));
                }
                r += &say(|| l.run(&al[x % al.len()]));
                l.st.disarm();
            }
            o(&format!("{name} {:?}", d), format!("{r} {} {:x}", hex(&l.t().root()), l.st.sum()));
        }
    }
}
fn chains(t: Tier, o: Out) {
    use fuel_merkle::common::Subtree;
    let len = t.pick(6, 7);
    for i in 0..6u64.pow(len) {
        let mut c: Subtree<u32> = Subtree::new(0, None);
        for (n, x) in digits(i, 6, len as usize).into_iter().enumerate() {
            let n = n as u32 + 1;
            match x {
                0 => c = Subtree::new(n, Some(Box::new(c))),
                1 => {
                    if let Some(rest) = c.take_next() {
                        c = *rest
                    }
                }
                2 => *c.next_mut() = None,
                3 => *c.node_mut() = 100 + n,
                4 => *c.next_mut() = Some(Box::new(c.clone())),
                _ => {
                    if let Some(next) = c.next_mut() {
                        *next.node_mut() += 1000
                    }
                }
            }
        }
        o(&format!("{i}"), format!("{:?} {:?}", c, c.next_node()));
    }
}
fn large_map(t: Tier, o: Out) {
    let mut m = StorageMap::<BTab>::new();
    let n = t.pick(100_000u64, 1_000_000);
    let key = |i: u64| i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (i % 40);
    for round in 0..3u64 {
        for i in 0..n {
            let k = key(i);
            let r = match (round + i) % 3 {
                2 => say(|| StorageMutate::remove(&mut m, &k)),
                _ => say(|| StorageMutate::insert(&mut m, &k, &(i + round, ZERO))),
            };
            let back = key(i / 2);
            let r =
                r + &say(|| (StorageInspect::get(&m, &back).map(|c| c.map(|c| c.into_owned().0)), StorageInspect::contains_key(&m, &back)));
            o(&format!("{round} {i}"), r);
        }
    }
}

/// `mc battery <tier>`: one line per section; `mc battery <tier> <section>`: every line.
pub fn battery(t: Tier, only: Option<&str>) {
    let secs = sections();
    if let Some(name) = only {
        let s = secs.iter().find(|s| s.0 == name).expect("section");
        (s.1)(t, &mut |k, r| println!("{k} => {r}"));
        return;
    }
    std::thread::scope(|sc| {
        for (name, f) in secs {
            spawn_in(sc, 64, move || {
                let (mut n, mut h, mut d) = (0u64, 0u64, HashSet::new());
                let mut sample = String::new();
                let r = guard(|| {
                    f(t, &mut |k, r| {
                        n += 1;
                        h = fp(&(h, k, &r));
                        d.insert(fp(&r));
                        if n == 10 {
                            sample = format!("{k} => {}", &r[..r.len().min(160)]);
                        }
                    })
                });
                let tail = if r.is_err() { "panicked" } else { "" };
                println!("{name}\t{n}\t{h:016x}\t{}\t{sample}{tail}", d.len());
            });
        }
    });
}
