//! C18-C22: positions, paths, the storage map, in-memory trees, binding of roots.
use crate::engine::*;
use crate::p_binary::{self, structured_counts, structured_indices};
use crate::p_sparse::{self, alphabet, seq_of, shapes, show, shows};
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use fuel_merkle::common::{Node as NodeT, ParentNode, Position, StorageMap};
use fuel_merkle::storage::{Mappable, StorageInspect, StorageInspectInfallible, StorageMutate, StorageMutateInfallible};
use fuel_merkle::{binary, sparse};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

// ------------------------------------------------------------------ C18

/// in-order index of the i-th node of height h, in 128 bits
fn idx(h: u32, i: u64) -> u128 {
    (i as u128) * (1u128 << (h + 1)) + (1u128 << h) - 1
}
fn position(h: u32, i: u64) -> Res {
    let me = idx(h, i);
    debug_assert!(me < (1u128 << 64) - 1);
    let p = Position::from_in_order_index(me as u64);
    let at = |x: Position| x.in_order_index() as u128;
    let ctx =
        |what: &str, got: u128, want: u128| format!("position {me} (height {h}, number {i} of its row): {what} is {got}, expected {want}");
    if at(p) != me {
        return Err(ctx("index", at(p), me));
    }
    if p.height() != h || NodeT::height(&p) != h {
        return Err(ctx("height", p.height() as u128, h as u128));
    }
    if p.is_leaf() != (h == 0) || p.is_node() != (h > 0) || NodeT::is_leaf(&p) != (h == 0) || NodeT::is_node(&p) != (h > 0) {
        return Err(ctx("is_leaf", p.is_leaf() as u128, (h == 0) as u128));
    }
    if p != Position::from_in_order_index(me as u64) {
        return Err(format!("position {me} differs from itself"));
    }
    if h == 0 {
        if p.leaf_index() != i {
            return Err(ctx("leaf index", p.leaf_index() as u128, i as u128));
        }
        let q = Position::from_leaf_index(i);
        if q != p || at(q) != me {
            return Err(ctx("index from leaf index", at(q), me));
        }
    } else {
        let (l, r) = (idx(h - 1, 2 * i), idx(h - 1, 2 * i + 1));
        if at(p.left_child()) != l {
            return Err(ctx("left child", at(p.left_child()), l));
        }
        if at(p.right_child()) != r {
            return Err(ctx("right child", at(p.right_child()), r));
        }
        match (ParentNode::left_child(&p), ParentNode::right_child(&p)) {
            (Ok(a), Ok(b)) if at(a) == l && at(b) == r => {}
            _ => return Err(format!("position {me}: children through the ParentNode trait differ")),
        }
        if p.left_child().parent() != p || p.right_child().parent() != p {
            return Err(format!("position {me}: parent does not invert the children"));
        }
        if p.left_child().sibling() != p.right_child() || p.right_child().sibling() != p.left_child() {
            return Err(format!("position {me}: its children are not siblings"));
        }
    }
    if h < 63 {
        let want = idx(h + 1, i / 2);
        if at(p.parent()) != want {
            return Err(ctx("parent", at(p.parent()), want));
        }
        let want = idx(h, i ^ 1);
        if at(p.sibling()) != want {
            return Err(ctx("sibling", at(p.sibling()), want));
        }
        if p.sibling().sibling() != p || p.sibling().parent() != p.parent() {
            return Err(format!("position {me}: sibling is no involution or has another parent"));
        }
    }
    if h < 62 {
        let want = idx(h + 1, (i / 2) ^ 1);
        if at(p.uncle()) != want {
            return Err(ctx("uncle", at(p.uncle()), want));
        }
    }
    Ok(())
}
pub fn c18(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let bits = t.pick(28, 32);
    v.push(Space::new(
        format!("every position below 2^{bits}"),
        1u64 << (bits - 10),
        |b, acc| {
            for x in b << 10..(b + 1) << 10 {
                // independent: strip trailing ones
                let (mut h, mut y) = (0u32, x);
                while y % 2 == 1 {
                    y /= 2;
                    h += 1;
                }
                let i = y / 2;
                position(h, i)?;
                acc.step(1);
            }
            acc.state(&(b, "block"));
            acc.trace(1024);
            Ok(())
        },
        |b| format!("positions {}..{}", b << 10, (b + 1) << 10),
    ));
    v.push(Space::new(
        "rows of all 64 heights: first, last and structured positions",
        64,
        move |h, acc| {
            let h = h as u32;
            let row = 63 - h; // the row has 2^row nodes
            let n = 1u128 << row;
            let mut is: Vec<u128> = (0..t.pick(20_000u128, 200_000)).collect();
            for k in 0..=row {
                let p = 1u128 << k;
                for d in 0..9u128 {
                    is.extend([p + d, p.wrapping_sub(d), n.wrapping_sub(p + d), n.wrapping_sub(p).wrapping_add(d)]);
                }
                for j in 0..k {
                    is.push(p | 1u128 << j);
                    is.push(p - (1u128 << j));
                    is.push((n - 1) ^ p ^ (1u128 << j));
                }
            }
            is.extend((0..20_000u128).map(|d| n.wrapping_sub(1 + d)));
            is.extend((0..64u32).map(|s| (0x9e37_79b9_7f4a_7c15u64 >> s) as u128));
            is.retain(|i| *i < n);
            is.sort();
            is.dedup();
            for i in is {
                guard(|| position(h, i as u64)).unwrap_or_else(|p| Err(format!("height {h}, number {i} of its row: panic: {p}")))?;
                acc.step(1);
                acc.state(&(h, i));
            }
            acc.trace(1);
            Ok(())
        },
        |h| format!("row of height {h}"),
    ));
    v
}

// ------------------------------------------------------------------ C19

fn real_path(i: u64, n: u64, start: Position) -> Res {
    let leaf = Position::from_leaf_index(i);
    let got: Vec<(u64, u64)> = start.path(&leaf, n).iter().map(|(a, b)| (a.in_order_index(), b.in_order_index())).collect();
    let want: Vec<(u64, u64)> = path_ranges(i, n).into_iter().map(|((a, b), (c, d))| (in_order(a, b), in_order(c, d))).collect();
    if got != want {
        return Err(format!("path from {} to leaf {i} of {n}: {:?}, expected {:?}", start.in_order_index(), got, want));
    }
    Ok(())
}
/// However an iteration is consumed (counted, skipped, in steps, in two parts, folded), it is the
/// same iteration, and its size hint holds.
fn consumed<I: Iterator>(make: impl Fn() -> I, item: impl Fn(I::Item) -> (u64, u64), want: &[(u64, u64)]) -> Res {
    let n = want.len();
    let bad = |how: String, got: String, want: String| Err(format!("{how} the iteration gives {got}, expected {want}"));
    if make().count() != n {
        return bad("counting".into(), make().count().to_string(), n.to_string());
    }
    if make().last().map(&item) != want.last().copied() {
        return bad("taking the last of".into(), "another".into(), format!("{:?}", want.last()));
    }
    for k in 0..=n {
        let mut it = make();
        let got = it.nth(k).map(&item);
        let rest: Vec<_> = it.map(&item).collect();
        if got != want.get(k).copied() || rest != want[(k + 1).min(n)..] {
            return bad(format!("from number {k} on"), format!("{got:?}, {rest:?}"), format!("{:?}", &want[k..]));
        }
        let mut it = make();
        let first: Vec<_> = it.by_ref().take(k).map(&item).collect();
        let (low, high) = it.size_hint();
        if low > n - k || high.is_some_and(|h| h < n - k) {
            return bad(format!("after {k} steps"), format!("a size hint of {low} to {high:?}"), (n - k).to_string());
        }
        let mut second = vec![];
        it.for_each(|x| second.push(item(x)));
        if first != want[..k] || second != want[k..] {
            return bad(format!("in parts of {k} and the rest"), format!("{first:?}, {second:?}"), format!("{want:?}"));
        }
        // after k steps, taken one by one, at once or in two, all the ways to go on
        for way in 0..3 + k {
            // (long ones: in two, near either end or at powers of two)
            if n > 20 && way > 5 && way + 3 < k && !way.is_power_of_two() {
                continue;
            }
            let part = || {
                let mut it = make();
                match way {
                    0 => _ = it.by_ref().take(k).count(),
                    1 => (0..k).for_each(|_| drop(it.next())),
                    2 if k > 0 => drop(it.nth(k - 1)),
                    2 => {}
                    _ => {
                        let a = way - 3;
                        it.nth(a);
                        if a + 1 < k {
                            it.nth(k - a - 2);
                        }
                    }
                }
                it
            };
            let (count, last) = (part().count(), part().last().map(&item));
            let folded = part().fold(vec![], |mut v, x| {
                v.push(item(x));
                v
            });
            let (low, high) = part().size_hint();
            let third = part().nth(2).map(&item);
            let stepped: Vec<_> = part().step_by(2).map(&item).collect();
            if count != n - k
                || last != want[k..].last().copied()
                || folded != want[k..]
                || low > n - k
                || high.is_some_and(|h| h < n - k)
                || third != want.get(k + 2).copied()
                || !stepped.iter().eq(want[k..].iter().step_by(2))
            {
                return bad(
                    format!("after {k} steps (way {way})"),
                    format!(
                        "count {count}, last {last:?}, {folded:?}, size hint {low} to {high:?}, third {third:?}, every other {stepped:?}"
                    ),
                    format!("{:?}", &want[k..]),
                );
            }
        }
        let skipped: Vec<_> = make().skip(k).map(&item).collect();
        let stepped: Vec<_> = make().step_by(k + 1).map(&item).collect();
        if skipped != want[k..] || !stepped.iter().eq(want.iter().step_by(k + 1)) {
            return bad(format!("skipping {k}"), format!("{skipped:?}, {stepped:?}"), format!("{want:?}"));
        }
    }
    Ok(())
}
fn consumed_path(i: u64, n: u64, start: Position) -> Res {
    let leaf = Position::from_leaf_index(i);
    let want: Vec<(u64, u64)> = path_ranges(i, n).into_iter().map(|((a, b), (c, d))| (in_order(a, b), in_order(c, d))).collect();
    consumed(|| start.path(&leaf, n).iter(), |(a, b)| (a.in_order_index(), b.in_order_index()), &want)
        .map_err(|e| format!("path from {} to leaf {i} of {n}: {e}", start.in_order_index()))
}
/// starting positions on the leftmost spine, at or above the real root
fn starts(n: u64, all: bool) -> Vec<Position> {
    let real = n.next_power_of_two().max(1);
    let mut v = vec![real - 1];
    // in-order root of the tree one larger, as the binary tree itself uses
    if n < 1 << 63 {
        v.push((n + 1).next_power_of_two() - 1);
    }
    let mut p = real;
    let mut c = 0;
    while p < 1 << 63 && (all || c < 2) {
        p *= 2;
        c += 1;
        v.push(p - 1);
    }
    v.push((1 << 63) - 1);
    v.sort();
    v.dedup();
    v.into_iter().map(Position::from_in_order_index).collect()
}
pub fn c19(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(900u64, 2100);
    v.push(Space::new(
        format!("every leaf of every size up to {max}, from the root and above"),
        max,
        move |i, acc| {
            let n = max - i;
            for s in starts(n, n <= 70) {
                for i in 0..n {
                    real_path(i, n, s)?;
                    if n <= 100 || n <= t.pick(100, 160) && s == starts(n, false)[0] {
                        consumed_path(i, n, s)?;
                    }
                    acc.step(1);
                    acc.beat();
                }
                acc.state(&(n, s.in_order_index()));
                acc.trace(n);
            }
            Ok(())
        },
        move |i| format!("{} leaves, all paths", max - i),
    ));
    let mut counts = structured_counts(t);
    counts.retain(|c| *c > 0);
    counts.push(1 << 63);
    let c2 = counts.clone();
    v.push(Space::new(
        format!("{} structured sizes up to 2^63, structured leaves", counts.len()),
        counts.len() as u64,
        move |ci, acc| {
            let n = counts[ci as usize];
            for (k, s) in starts(n, false).into_iter().enumerate() {
                for i in structured_indices(n) {
                    real_path(i, n, s)?;
                    if k == 0 && ci % 16 == 0 {
                        consumed_path(i, n, s)?;
                    }
                    acc.beat();
                    acc.step(1);
                    acc.state(&(n, i));
                }
                acc.trace(1);
            }
            Ok(())
        },
        move |i| format!("{} leaves, structured paths", c2[i as usize]),
    ));
    v
}

// ------------------------------------------------------------------ C20

/// A key whose hash is the same for all keys: only equality separates them.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Clash(u8);
impl std::hash::Hash for Clash {
    fn hash<S: std::hash::Hasher>(&self, s: &mut S) {
        s.write_u8(0)
    }
}
/// A value stored in another form than it is set.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wrapped(u32);
impl From<u8> for Wrapped {
    fn from(x: u8) -> Self {
        Wrapped(x as u32 + 1000)
    }
}
pub struct TClash;
impl Mappable for TClash {
    type Key = Clash;
    type SetValue = u8;
    type GetValue = Wrapped;
}
pub struct TPlain;
impl Mappable for TPlain {
    type Key = u64;
    type SetValue = (u64, H);
    type GetValue = (u64, H);
}
pub struct TBytes;
impl Mappable for TBytes {
    type Key = H;
    type SetValue = String;
    type GetValue = String;
}
fn map_case<T>(keys: &[T::Key], vals: &[T::SetValue], d: &[usize], from: usize, acc: &Acc) -> Res
where
    T: Mappable,
    T::Key: Ord + Clone + std::hash::Hash + std::fmt::Debug,
    T::SetValue: Clone,
    T::GetValue: Clone + From<T::SetValue> + PartialEq + std::fmt::Debug,
{
    let (nk, nv) = (keys.len(), vals.len());
    let mut m = StorageMap::<T>::new();
    let mut r: BTreeMap<T::Key, T::GetValue> = BTreeMap::new();
    for (p, &x) in d.iter().enumerate() {
        let k = &keys[x % nk];
        let what = x / nk; // 0..nv insert, nv remove, nv+1 get/contains through references
        let bad = |w: &str, g: String, e: String| Err(format!("step {p}: {w}({:?}) returned {g}, expected {e}", k));
        if what < nv {
            let want = r.insert(k.clone(), vals[what].clone().into());
            // alternate between the fallible, infallible and by-reference forms
            let got = match p % 3 {
                0 => StorageMutate::insert(&mut m, k, &vals[what]).unwrap(),
                1 => StorageMutateInfallible::insert(&mut m, k, &vals[what]),
                _ => StorageMutate::<T>::insert(&mut &mut m, k, &vals[what]).unwrap(),
            };
            if got != want {
                return bad("insert", format!("{:?}", got), format!("{:?}", want));
            }
        } else if what == nv {
            let want = r.remove(k);
            let got = match p % 3 {
                0 => StorageMutate::remove(&mut m, k).unwrap(),
                1 => StorageMutateInfallible::remove(&mut m, k),
                _ => StorageMutate::<T>::remove(&mut &mut m, k).unwrap(),
            };
            if got != want {
                return bad("remove", format!("{:?}", got), format!("{:?}", want));
            }
        }
        if p < from {
            continue;
        }
        acc.step(1);
        acc.state(&(std::any::type_name::<T>(), format!("{:?}", r)));
        for k in keys {
            let want = r.get(k);
            let views: [Option<T::GetValue>; 5] = [
                StorageInspect::get(&m, k).unwrap().map(|c| c.into_owned()),
                StorageInspectInfallible::get(&m, k).map(|c| c.into_owned()),
                StorageInspect::<T>::get(&&m, k).unwrap().map(|c| c.into_owned()),
                StorageInspect::<T>::get(&&mut m, k).unwrap().map(|c| c.into_owned()),
                StorageInspectInfallible::<T>::get(&&mut m, k).map(|c| c.into_owned()),
            ];
            for g in &views {
                if g.as_ref() != want {
                    return bad("get", format!("{:?} for key {:?}", g, k), format!("{:?}", want));
                }
            }
            let c = [
                StorageInspect::contains_key(&m, k).unwrap(),
                StorageInspectInfallible::contains_key(&m, k),
                StorageInspect::<T>::contains_key(&&m, k).unwrap(),
                StorageInspect::<T>::contains_key(&&mut m, k).unwrap(),
            ];
            if c.iter().any(|x| *x != want.is_some()) {
                return bad("contains_key", format!("{:?} for key {:?}", c, k), format!("{}", want.is_some()));
            }
        }
    }
    acc.trace(1);
    Ok(())
}
pub fn c20(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let len = t.pick(6, 7);
    // per key: insert v0, insert v1, remove, read
    for (ti, name) in ["u64 keys", "32-byte keys", "keys with equal hashes"].into_iter().enumerate() {
        let b = 3 * 4u64;
        v.push(Space::new(
            format!("all sequences of length {len} over 3 keys x (insert v0, insert v1, remove, read)/{name}"),
            b.pow(len as u32),
            move |i, acc| {
                let d = digits(i, b, len);
                let from = first_visit(&d);
                let r = match ti {
                    0 => map_case::<TPlain>(&[0, 1, u64::MAX], &[(0, ZERO), (7, [7; 32])], &d, from, acc),
                    1 => map_case::<TBytes>(&[ZERO, flip(&ZERO, 255), flip(&ZERO, 0)], &["".into(), "x".into()], &d, from, acc),
                    _ => map_case::<TClash>(&[Clash(0), Clash(1), Clash(2)], &[0, 200], &d, from, acc),
                };
                r.map_err(|e| format!("{:?}: {e}", d))
            },
            move |i| format!("{:?} (digit = action*3 + key)", digits(i, b, len)),
        ));
    }
    // growth: thousands of keys, then removal
    let n = t.pick(200_000u64, 1_000_000);
    v.push(Space::new(
        format!("{n} keys inserted, overwritten and removed"),
        3,
        move |s, acc| {
            let key = |i: u64| match s {
                0 => i,
                1 => i << 40 | i,
                _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            };
            let mut m = StorageMap::<TPlain>::new();
            for i in 0..n {
                if StorageMutate::insert(&mut m, &key(i), &(i, ZERO)).unwrap().is_some() {
                    return Err(format!("insert of the fresh key {} returned a value", key(i)));
                }
                acc.step(1);
            }
            for i in (0..n).step_by(3) {
                if StorageMutate::insert(&mut m, &key(i), &(i + 1, [1; 32])).unwrap() != Some((i, ZERO)) {
                    return Err(format!("overwrite of key {} did not return the previous value", key(i)));
                }
            }
            for i in (0..n).step_by(2) {
                let want = if i % 3 == 0 { (i + 1, [1; 32]) } else { (i, ZERO) };
                if StorageMutate::remove(&mut m, &key(i)).unwrap() != Some(want) {
                    return Err(format!("remove of key {} did not return its value", key(i)));
                }
            }
            for i in 0..n {
                let want = if i % 2 == 0 {
                    None
                } else if i % 3 == 0 {
                    Some((i + 1, [1; 32]))
                } else {
                    Some((i, ZERO))
                };
                let g = StorageInspect::get(&m, &key(i)).unwrap().map(|c| c.into_owned());
                if g != want || StorageInspect::contains_key(&m, &key(i)).unwrap() != want.is_some() {
                    return Err(format!("key {} holds {:?}, expected {:?}", key(i), g.map(|x| x.0), want.map(|x| x.0)));
                }
                acc.state(&(s, i, g));
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("key family {s}"),
    ));
    // growing and shrinking, again and again
    let sizes: Vec<u64> = t.pick(vec![30, 300, 1_500, 3_000, 20_000, 100_000], vec![30, 300, 1_500, 3_000, 20_000, 100_000, 600_000]);
    let ns = sizes.len() as u64;
    v.push(Space::new(
        format!("maps growing to {sizes:?} entries and shrinking, three times: every order of removal, share removed and kind of key"),
        ns * 4 * 4 * 2,
        move |i, acc| {
            let (n, order, share, far) = (sizes[(ns - 1 - i / 32) as usize], i / 8 % 4, i / 2 % 4, i % 2);
            let key = |i: u64| if far == 0 { i } else { i.wrapping_mul(0x9e37_79b9_7f4a_7c15) };
            let mut m = StorageMap::<TPlain>::new();
            let mut r: BTreeMap<u64, (u64, H)> = BTreeMap::new();
            for round in 0..3u64 {
                for j in 0..n {
                    let (k, v) = (key(j), (j + round, ZERO));
                    if StorageMutate::insert(&mut m, &k, &v).unwrap() != r.insert(k, v) {
                        return Err(format!("round {round}: the insertion of key number {j} returns the wrong value"));
                    }
                }
                for j in 0..n * [1, 2, 3, 4][share as usize] / 4 {
                    let j = match order {
                        0 => j,
                        1 => n - 1 - j,
                        2 => j * 7919 % n,
                        _ => j * 2 % n + j * 2 / n,
                    };
                    // twice: the second time the key is absent
                    for _ in 0..2 {
                        if StorageMutate::remove(&mut m, &key(j)).unwrap() != r.remove(&key(j)) {
                            return Err(format!("round {round}: the removal of key number {j} returns the wrong value"));
                        }
                    }
                    acc.beat();
                }
                for j in 0..n {
                    let got = StorageInspect::get(&m, &key(j)).unwrap().map(|c| c.into_owned());
                    let has = StorageInspect::contains_key(&m, &key(j)).unwrap();
                    if got.as_ref() != r.get(&key(j)) || has != got.is_some() {
                        return Err(format!("round {round}: key number {j} holds {:?}, contained: {has}", got.map(|x| x.0)));
                    }
                }
                acc.step(3 * n);
                acc.state(&("shrinking", i, round));
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("order {}, share {}, keys {}", i / 8 % 4, i / 2 % 4, i % 2),
    ));
    // default and new are the same, empty, map
    v.push(Space::new(
        "new and default maps",
        1,
        |_, acc| {
            for mut m in [StorageMap::<TPlain>::new(), StorageMap::<TPlain>::default()] {
                for k in [0, 1, u64::MAX] {
                    if StorageInspect::get(&m, &k).unwrap().is_some()
                        || StorageInspect::contains_key(&m, &k).unwrap()
                        || StorageMutate::remove(&mut m, &k).unwrap().is_some()
                    {
                        return Err(format!("a new map holds the key {k}"));
                    }
                    acc.step(3);
                    acc.state(&("new", k));
                }
            }
            acc.trace(1);
            Ok(())
        },
        |_| "empty maps".into(),
    ));
    v
}

// ------------------------------------------------------------------ C21

/// The same sparse history on five kinds of tree.
struct Five<'a> {
    im: sparse::in_memory::MerkleTree,
    df: sparse::in_memory::MerkleTree,
    refd: sparse::MerkleTree<STab, &'a mut StorageMap<STab>>,
    owned: sparse::MerkleTree<STab, StorageMap<STab>>,
    mem: sparse::MerkleTree<STab, Mem<STab>>,
}
impl<'a> Five<'a> {
    fn new(own: &'a mut StorageMap<STab>) -> Self {
        Five {
            im: sparse::in_memory::MerkleTree::new(),
            df: sparse::in_memory::MerkleTree::default(),
            refd: sparse::MerkleTree::new(own),
            owned: sparse::MerkleTree::new(StorageMap::new()),
            mem: sparse::MerkleTree::new(Mem::new()),
        }
    }
    fn run(&mut self, op: &p_sparse::Op) -> Res {
        let e = match op {
            p_sparse::Op::Up(k, d) => {
                self.im.update(k, d);
                self.df.update(k, d);
                [self.refd.update(k, d).is_err(), self.owned.update(k, d).is_err(), self.mem.update(k, d).is_err()]
            }
            p_sparse::Op::Del(k) => {
                self.im.delete(k);
                self.df.delete(k);
                [self.refd.delete(k).is_err(), self.owned.delete(k).is_err(), self.mem.delete(k).is_err()]
            }
            _ => [false; 3],
        };
        if e != [false; 3] {
            return Err(format!("{} failed", show(op)));
        }
        Ok(())
    }
    fn same(&self) -> Result<H, String> {
        let r = [self.im.root(), self.df.root(), self.refd.root(), self.owned.root(), self.mem.root()];
        if r.iter().any(|x| *x != r[0]) {
            return Err(format!(
                "roots in memory {}, default {}, &mut map {}, map {}, own store {}",
                hx(&r[0]),
                hx(&r[1]),
                hx(&r[2]),
                hx(&r[3]),
                hx(&r[4])
            ));
        }
        Ok(r[0])
    }
    fn all(ops: &[p_sparse::Op], from: usize, acc: &Acc) -> Res {
        let mut own = StorageMap::<STab>::new();
        let mut f = Five::new(&mut own);
        for (p, op) in ops.iter().enumerate() {
            acc.beat();
            let r = f.run(op).and_then(|_| if p >= from { f.same().map(Some) } else { Ok(None) });
            if let Some(r) = r.map_err(|e| format!("after [{}]: {e}", shows(&ops[p.saturating_sub(8)..=p])))? {
                acc.step(1);
                acc.state(&r);
            }
        }
        acc.trace(1);
        Ok(())
    }
}
/// The same pushes on four kinds of binary tree.
struct Four<'a> {
    im: binary::in_memory::MerkleTree,
    df: binary::in_memory::MerkleTree,
    refd: binary::MerkleTree<BTab, &'a mut StorageMap<BTab>>,
    mem: binary::MerkleTree<BTab, Mem<BTab>>,
}
impl<'a> Four<'a> {
    fn new(own: &'a mut StorageMap<BTab>) -> Self {
        Four {
            im: binary::in_memory::MerkleTree::new(),
            df: binary::in_memory::MerkleTree::default(),
            refd: binary::MerkleTree::new(own),
            mem: binary::MerkleTree::new(Mem::new()),
        }
    }
    fn push(&mut self, d: &[u8]) -> Res {
        self.im.push(d);
        self.df.push(d);
        if self.refd.push(d).is_err() || self.mem.push(d).is_err() {
            return Err("push failed".into());
        }
        Ok(())
    }
    /// roots and the proofs of the given indices
    fn same(&mut self, n: u64, ix: impl Iterator<Item = u64>) -> Result<H, String> {
        let r = [self.im.root(), self.df.root(), self.refd.root(), self.mem.root()];
        if r.iter().any(|x| *x != r[0]) {
            return Err(format!(
                "{n} leaves: roots differ: in memory {}, default {}, map {}, own store {}",
                hx(&r[0]),
                hx(&r[1]),
                hx(&r[2]),
                hx(&r[3])
            ));
        }
        for i in ix {
            let p = guard(|| [self.im.prove(i), self.df.prove(i), self.refd.prove(i).ok(), self.mem.prove(i).ok()])
                .map_err(|p| format!("{n} leaves: prove({i}) panicked: {p}"))?;
            if p.iter().any(|x| *x != p[0]) {
                return Err(format!("{n} leaves: proofs of {i} differ between trees"));
            }
            if p[0].is_some() != (i < n) {
                return Err(format!("{n} leaves: proof of {i} is {}", if i < n { "refused" } else { "given" }));
            }
        }
        Ok(r[0])
    }
    fn everything(&mut self, n: u64) -> Result<H, String> {
        self.same(n, (0..n + 3).chain([u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]))
    }
}
pub fn c21(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    for (name, keys) in shapes() {
        let deep = p_sparse::is_deep(name);
        for (what, al, len) in [
            ("3 keys x 2 values", alphabet(&keys[..3], 2, true, false), t.pick(if deep { 3 } else { 4 }, if deep { 4 } else { 5 })),
            ("3 keys x 1 value", alphabet(&keys[..3], 1, false, false), t.pick(if deep { 5 } else { 6 }, if deep { 6 } else { 7 })),
        ] {
            let al2 = al.clone();
            v.push(Space::new(
                format!("sparse: all sequences of length {len} over {what} on five kinds of tree/{name}"),
                (al.len() as u64).pow(len as u32),
                move |i, acc| {
                    let (ops, from) = seq_of(&al, i, len);
                    Five::all(&ops, from, acc)
                },
                move |i| shows(&seq_of(&al2, i, len).0),
            ));
        }
    }
    // values that imitate encodings, and values of every length
    let keys = shapes()[1].1.clone();
    let vals = p_sparse::adversarial_values(&keys);
    let mut al: Vec<p_sparse::Op> = vals.iter().map(|x| p_sparse::Op::Up(keys[0], x.clone())).collect();
    al.extend(vals.iter().step_by(3).map(|x| p_sparse::Op::Up(keys[1], x.clone())));
    al.extend([
        p_sparse::Op::Up(keys[0], vec![]),
        p_sparse::Op::Up(keys[1], vec![]),
        p_sparse::Op::Del(keys[0]),
        p_sparse::Op::Del(keys[1]),
    ]);
    let len = t.pick(3, 4);
    let al2 = al.clone();
    v.push(Space::new(
        format!("sparse: all sequences of length {len} over two keys and imitating values"),
        (al.len() as u64).pow(len as u32),
        move |i, acc| {
            let (ops, from) = seq_of(&al, i, len);
            Five::all(&ops, from, acc)
        },
        move |i| shows(&seq_of(&al2, i, len).0),
    ));
    let lens: Vec<usize> = crate::p_binary::lengths(t);
    let l2 = lens.clone();
    let k2 = keys.clone();
    v.push(Space::new(
        "sparse: value lengths x fill bytes",
        lens.len() as u64 * 4,
        move |i, acc| {
            let (n, fill) = (lens[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]);
            let ops = [
                p_sparse::Op::Up(k2[0], vec![fill; n]),
                p_sparse::Op::Up(k2[1], vec![fill; n + 1]),
                p_sparse::Op::Up(k2[1], vec![fill; n]),
                p_sparse::Op::Up(k2[2], vec![fill; n]),
                p_sparse::Op::Del(k2[0]),
                p_sparse::Op::Del(k2[1]),
            ];
            Five::all(&ops, 0, acc)
        },
        move |i| format!("values of {} bytes of {:#x}", l2[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]),
    ));
    // keys diverging at every depth
    let mk = |i: u64| {
        let a = p_sparse::base((i % 5) as usize);
        let d = (i / 5) as usize;
        let (b, c) = (flip(&a, d), flip(&flip(&a, d), 255 - d));
        use p_sparse::Op::*;
        vec![
            Up(a, vec![1]),
            Up(b, vec![2]),
            Up(b, vec![]),
            Up(b, vec![3]),
            Up(c, vec![2]),
            Up(a, vec![4]),
            Del(c),
            Del(a),
            Del(a),
            Up(c, vec![5]),
            Del(b),
            Up(b, vec![2]),
            Del(c),
            Del(b),
        ]
    };
    v.push(Space::new(
        "sparse: keys diverging at each of 256 depths x 5 patterns",
        256 * 5,
        move |i, acc| Five::all(&mk(i), 0, acc),
        move |i| shows(&mk(i)),
    ));
    let len = t.pick(8, 11);
    v.push(Space::new(
        format!("binary: all sequences of length {len} of push a, push b, root, prove"),
        4u64.pow(len as u32),
        move |i, acc| {
            let d = digits(i, 4, len);
            let from = first_visit(&d);
            let mut own = StorageMap::<BTab>::new();
            let mut f = Four::new(&mut own);
            let mut n = 0u64;
            let mut m = BinModel::new();
            for (p, &x) in d.iter().enumerate() {
                if x < 2 {
                    let leaf = p_binary::data(x as u64, p as u64);
                    f.push(&leaf)?;
                    m.push(&leaf);
                    n += 1;
                } else if x == 2 {
                    // nothing else is asked in between
                    let r = [f.im.root(), f.df.root(), f.refd.root(), f.mem.root()];
                    if r != [m.root(); 4] {
                        return Err(format!("{:?} at {p}: wrong root", &d[..=p]));
                    }
                } else {
                    let i = p as u64 % (n + 1);
                    let want = (i < n).then(|| (m.root(), m.proof(i)));
                    let r = [f.im.prove(i), f.df.prove(i), f.refd.prove(i).ok(), f.mem.prove(i).ok()];
                    if r.iter().any(|x| *x != want) {
                        return Err(format!("{:?} at {p}: wrong proof of {i} of {n} leaves", &d[..=p]));
                    }
                }
                if p < from {
                    continue;
                }
                acc.step(1);
                let r = f.everything(n).map_err(|e| format!("{:?} at {p}: {e}", &d[..=p]))?;
                acc.state(&r);
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("0=push a 1=push b 2=root 3=prove: {:?}", digits(i, 4, len)),
    ));
    let al = p_binary::adversarial();
    let b = al.len() as u64;
    let len = t.pick(4, 5);
    let al2 = al.clone();
    v.push(Space::new(
        format!("binary: all lists of length {len} over {b} imitating leaf contents"),
        b.pow(len as u32),
        move |i, acc| {
            let d = digits(i, b, len);
            let from = first_visit(&d);
            let mut own = StorageMap::<BTab>::new();
            let mut f = Four::new(&mut own);
            for (p, &x) in d.iter().enumerate() {
                f.push(&al[x])?;
                if p >= from {
                    acc.step(1);
                    let r = f.everything(p as u64 + 1).map_err(|e| format!("leaves {:?}: {e}", &d[..=p]))?;
                    acc.state(&r);
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves [{}]", digits(i, b, len).iter().map(|&x| format!("0x{}", hx(&al2[x]))).collect::<Vec<_>>().join(", ")),
    ));
    let lens = crate::p_binary::lengths(t);
    let l2 = lens.clone();
    v.push(Space::new(
        "binary: leaf lengths x fill bytes",
        lens.len() as u64 * 4,
        move |i, acc| {
            let (n, fill) = (lens[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]);
            let mut own = StorageMap::<BTab>::new();
            let mut f = Four::new(&mut own);
            for (p, l) in [n, n + 1, n].into_iter().enumerate() {
                f.push(&vec![fill; l])?;
                let r = f.everything(p as u64 + 1)?;
                acc.state(&r);
                acc.step(1);
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("leaves of {} bytes of {:#x}", l2[i as usize / 4], [0u8, 1, 0x80, 0xff][i as usize % 4]),
    ));
    let max = t.pick(140u64, 400);
    v.push(Space::new(
        format!("binary: every size up to {max}, all proofs"),
        max + 1,
        move |n, acc| {
            let mut own = StorageMap::<BTab>::new();
            let mut f = Four::new(&mut own);
            for i in 0..n {
                f.push(&p_binary::data(3, i))?;
            }
            acc.step(n);
            acc.trace(1);
            let r = f.everything(n)?;
            acc.state(&(n, r));
            Ok(())
        },
        |n| format!("{n} leaves"),
    ));
    let max = t.pick(70_000u64, 300_000);
    v.push(Space::new(
        format!("binary: one growth to {max} leaves"),
        3,
        move |s, acc| {
            let mut own = StorageMap::<BTab>::new();
            let mut f = Four::new(&mut own);
            for n in 1..=max {
                acc.beat();
                f.push(&p_binary::data(s, n))?;
                // dataset 2 is asked rarely
                if n < 2000 && s < 2 || n.is_power_of_two() || (n & (n + 1)) == 0 || n % 997 == 0 {
                    let r = f.same(n, [0, n / 2, n - 1, n, n + 1].into_iter())?;
                    acc.state(&(s, n, r));
                }
                acc.step(1);
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("dataset {s}, growing"),
    ));
    // larger sparse trees
    let n = t.pick(20_000u32, 150_000);
    v.push(Space::new(
        format!("sparse: up to {n} keys in and out, on five kinds of tree"),
        5,
        move |s, acc| {
            let fam = if s == 0 { n } else { 256 };
            let key = |i: u32| {
                if s == 0 {
                    sha(&[&i.to_be_bytes()])
                } else {
                    flip(&p_sparse::base(s as usize - 1), (i % 256) as usize)
                }
            };
            let mut own = StorageMap::<STab>::new();
            let mut f = Five::new(&mut own);
            for i in 0..3 * fam {
                acc.beat();
                let k = key((i.wrapping_mul(7)) % fam);
                let op = if i / fam < 2 { p_sparse::Op::Up(k, i.to_be_bytes().to_vec()) } else { p_sparse::Op::Del(key(i % fam)) };
                f.run(&op)?;
                if i % fam < 300 || i % 61 == 0 || i % fam > fam - 100 {
                    let r = f.same().map_err(|e| format!("operation {i}: {e}"))?;
                    acc.state(&r);
                }
                acc.step(1);
            }
            acc.trace(1);
            Ok(())
        },
        |s| format!("key family {s}"),
    ));
    let al = crate::p_special::sparse_few();
    let len = t.pick(3, 4);
    let al2 = al.clone();
    v.push(Space::new(
        format!("sparse: all sequences of length {len} over values with special digests"),
        (al.len() as u64).pow(len as u32),
        move |i, acc| {
            let (ops, from) = seq_of(&al, i, len);
            Five::all(&ops, from, acc)
        },
        move |i| shows(&seq_of(&al2, i, len).0),
    ));
    v.push(crate::p_special::binary_space(t, |_, _, m, acc| {
        let al = crate::p_special::texts(&["bleaf", "broot"]);
        let mut own = StorageMap::<BTab>::new();
        let mut f = Four::new(&mut own);
        for h in &m.levels[0] {
            f.push(al.iter().find(|d| leaf(d) == *h).unwrap())?;
        }
        let r = f.everything(m.len())?;
        if r != m.root() {
            return Err("the in-memory tree has a different root".into());
        }
        acc.cmp(1);
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C22

/// Roots seen so far: two different contents must never meet.
struct Roots(Vec<Mutex<HashMap<[u8; 32], u64>>>);
impl Roots {
    fn new() -> Self {
        Roots((0..64).map(|_| Mutex::new(HashMap::new())).collect())
    }
    fn meet(&self, r: H, id: u64) -> Option<u64> {
        match self.0[(r[0] & 63) as usize].lock().unwrap().insert(r, id) {
            Some(o) if o != id => Some(o),
            _ => None,
        }
    }
}
pub fn c22(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // binary: all lists up to a length over contents that imitate encodings
    let al = p_binary::adversarial();
    let b = al.len() as u64;
    let max = t.pick(5, 6);
    let roots = Roots::new();
    let al2 = al.clone();
    v.push(Space::new(
        format!("binary: all lists of at most {max} leaves over {b} imitating contents"),
        p_sparse::count_upto(b, max),
        move |i, acc| {
            let d = list_upto(b, i, max);
            let mut t = binary::in_memory::MerkleTree::new();
            for &x in &d {
                t.push(&al[x]);
            }
            acc.step(d.len() as u64);
            acc.trace(1);
            let r = t.root();
            acc.state(&("b", r));
            match roots.meet(r, i) {
                Some(o) => Err(format!("the leaf lists {:?} and {:?} have the same root {}", list_upto(b, o, max), d, hx(&r))),
                None => Ok(()),
            }
        },
        move |i| format!("leaves {:?}", list_upto(b, i, max).iter().map(|&x| hx(&al2[x])).collect::<Vec<_>>()),
    ));
    // binary: long lists over two contents, all lengths
    let max2 = t.pick(18, 20);
    let roots = Roots::new();
    v.push(Space::new(
        format!("binary: all lists of at most {max2} leaves over two contents"),
        p_sparse::count_upto(2, max2),
        move |i, acc| {
            let d = list_upto(2, i, max2);
            let mut t = binary::in_memory::MerkleTree::new();
            for &x in &d {
                t.push(&[x as u8]);
            }
            acc.step(d.len() as u64);
            acc.trace(1);
            let r = t.root();
            acc.state(&("b2", r));
            match roots.meet(r, i) {
                Some(o) => Err(format!("the leaf lists {:?} and {:?} have the same root {}", list_upto(2, o, max2), d, hx(&r))),
                None => Ok(()),
            }
        },
        move |i| format!("leaves {:?}", list_upto(2, i, max2)),
    ));
    // sum: fee/data boundary games
    let (l0, l1) = (sum_leaf(0, b""), sum_leaf(1, b"a"));
    let inner = |x: &SNode, y: &SNode| [&(x.fee as u64).to_be_bytes()[..], &x.hash, &(y.fee as u64).to_be_bytes(), &y.hash].concat();
    let full = inner(&l0, &l1);
    let mut al: Vec<(u64, Vec<u8>)> = vec![
        (0, vec![]),
        (1, vec![]),
        (1, b"a".to_vec()),
        (0, b"a".to_vec()),
        (0, vec![1]),
        (0, vec![0]),
        (0, vec![0; 8]),
        (256, vec![]),
        (1 << 56, vec![]),
        (1 << 32, b"a".to_vec()),
        (u32::MAX as u64, b"a".to_vec()),
        (0, full.clone()),
        (1, full.clone()),
        (u64::from_be_bytes(full[..8].try_into().unwrap()), full[8..].to_vec()),
        (0, [&[1u8][..], &full].concat()),
        (1, l1.hash.to_vec()),
        (0, l1.hash.to_vec()),
    ];
    al.dedup();
    let b = al.len() as u64;
    let max = t.pick(4, 5);
    let roots = Roots::new();
    let al2 = al.clone();
    v.push(Space::new(
        format!("sum: all lists of at most {max} leaves over {b} imitating contents"),
        p_sparse::count_upto(b, max),
        move |i, acc| {
            let d = list_upto(b, i, max);
            let mut t = crate::p_sum::new_tree();
            for &x in &d {
                (t.push)(al[x].0, &al[x].1).map_err(|e| format!("push failed: {:?}", e))?;
            }
            acc.step(d.len() as u64);
            acc.trace(1);
            let (f, h) = (t.root)().map_err(|e| format!("root failed: {:?}", e))?;
            acc.state(&("s", f, h));
            // the digest alone already separates the lists (stronger than the pair)
            match roots.meet(h, i) {
                Some(o) => {
                    let ot = list_upto(b, o, max);
                    let of: u128 = ot.iter().map(|&x| al[x].0 as u128).sum();
                    if of == f as u128 {
                        return Err(format!("the lists {:?} and {:?} have the same root ({f}, {})", ot, d, hx(&h)));
                    }
                    Ok(())
                }
                None => Ok(()),
            }
        },
        move |i| format!("leaves {:?}", list_upto(b, i, max).iter().map(|&x| (al2[x].0, hx(&al2[x].1))).collect::<Vec<_>>()),
    ));
    // sparse: every map over several keys and imitating values
    for (name, keys) in shapes() {
        let vals: Vec<Vec<u8>> = p_sparse::adversarial_values(&keys).into_iter().take(t.pick(9, 15)).collect();
        let mut keys = keys;
        // a key equal to the digest of the first leaf
        keys.push(sp_leaf(&keys[0], &value_digest(b"a")));
        let b = vals.len() as u64 + 1;
        let nk = t.pick(4, 5);
        let keys: Vec<H> = if nk == 4 { vec![keys[0], keys[1], keys[2], keys[4]] } else { keys };
        let roots = Roots::new();
        v.push(Space::new(
            format!("sparse: all maps over {nk} keys x {} imitating values/{name}", b - 1),
            b.pow(nk as u32),
            move |i, acc| {
                let d = digits(i, b, nk);
                let mut t = sparse::in_memory::MerkleTree::new();
                for (k, &x) in d.iter().enumerate() {
                    if x > 0 {
                        t.update(&keys[k], &vals[x - 1]);
                    }
                }
                acc.step(nk as u64);
                acc.trace(1);
                let r = t.root();
                acc.state(&(name, r));
                match roots.meet(r, i) {
                    Some(o) => Err(format!(
                        "the maps {:?} and {:?} (value numbers per key, 0 = absent) have the same root {}",
                        digits(o, b, nk),
                        d,
                        hx(&r)
                    )),
                    None => Ok(()),
                }
            },
            move |i| format!("value numbers per key (0 = absent) {:?}", digits(i, b, nk)),
        ));
    }
    // sparse: one entry, keys at all single-bit distances, must all differ
    let roots = Roots::new();
    v.push(Space::new(
        "sparse: one- and two-entry maps over 257 close keys",
        257 * 257,
        move |i, acc| {
            let key = |j: u64| {
                if j == 0 {
                    p_sparse::base(4)
                } else {
                    flip(&p_sparse::base(4), j as usize - 1)
                }
            };
            let (a, b) = (i / 257, i % 257);
            if a > b {
                return Ok(());
            }
            let mut t = sparse::in_memory::MerkleTree::new();
            t.update(&key(a), b"v");
            if b != a {
                t.update(&key(b), b"v");
            }
            acc.step(2);
            acc.trace(1);
            let r = t.root();
            acc.state(&("close", r));
            match roots.meet(r, i) {
                Some(o) => Err(format!("key sets {:?} and {:?} (bit flipped + 1) have the same root", (o / 257, o % 257), (a, b))),
                None => Ok(()),
            }
        },
        |i| format!("keys {} and {}", i / 257, i % 257),
    ));
    v.extend(binding(t));
    let (vals, root) = crate::p_special::maps();
    let b = vals.len() as u64 + 1;
    let roots = Roots::new();
    v.push(Space::new(
        format!("sparse: all maps over 3 keys x {} values with special digests", b - 1),
        b.pow(3),
        move |i, acc| {
            let d = digits(i, b, 3);
            let r = root(&d);
            acc.step(3);
            acc.trace(1);
            acc.state(&("special", r));
            match roots.meet(r, i) {
                Some(o) => Err(format!(
                    "the maps {:?} and {:?} (value numbers per key, 0 = absent) have the same root {}",
                    digits(o, b, 3),
                    d,
                    hx(&r)
                )),
                None => Ok(()),
            }
        },
        move |i| format!("value numbers per key (0 = absent) {:?}", digits(i, b, 3)),
    ));
    let al = crate::p_special::texts(&["bleaf", "broot", "sleaf", "sroot"]);
    let b = al.len() as u64;
    for sum in [false, true] {
        let al = al.clone();
        let roots = Roots::new();
        v.push(Space::new(
            format!("{}: all lists of at most 3 leaves with special digests", if sum { "sum" } else { "binary" }),
            p_sparse::count_upto(b, 3),
            move |i, acc| {
                let d = list_upto(b, i, 3);
                let r = if sum {
                    let mut t = crate::p_sum::new_tree();
                    for &x in &d {
                        (t.push)(crate::p_special::FEE, &al[x]).map_err(|e| format!("push failed: {:?}", e))?;
                    }
                    (t.root)().map_err(|e| format!("root failed: {:?}", e))?.1
                } else {
                    let mut t = binary::in_memory::MerkleTree::new();
                    for &x in &d {
                        t.push(&al[x]);
                    }
                    t.root()
                };
                acc.step(d.len() as u64);
                acc.trace(1);
                acc.state(&(sum, r));
                match roots.meet(r, i) {
                    Some(o) => Err(format!("the leaf lists {:?} and {:?} have the same root {}", list_upto(b, o, 3), d, hx(&r))),
                    None => Ok(()),
                }
            },
            move |i| format!("leaves {:?}", list_upto(b, i, 3)),
        ));
    }
    v
}
/// Contents that differ in length, fill, or a single byte at any offset.
fn contents(t: Tier, long: bool) -> Vec<Content> {
    let mut v = vec![];
    let lens = if long { p_binary::lengths(t) } else { (0..=130).chain([255, 256, 257, 1000]).collect() };
    for &n in &lens {
        for fill in [0u8, 1, 0x80, 0xff] {
            if n > 0 || fill == 0 {
                v.push(Content { len: n, fill, at: None });
            }
        }
        if n == 0 {
            continue;
        }
        let mut offs: Vec<usize> = if n <= if long { 130 } else { 20 } { (0..n).collect() } else { vec![] };
        for k in 0..24 {
            offs.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, n.wrapping_sub(1 << k), n / 2, n - 1]);
        }
        if n > 4000 {
            offs.extend((0..64).map(|i| i * (n / 64) + i));
        }
        offs.retain(|x| *x < n);
        offs.sort();
        offs.dedup();
        if !long && n > 20 {
            offs.truncate(12);
        }
        v.extend(offs.into_iter().map(|o| Content { len: n, fill: 0, at: Some(o) }));
    }
    // a one-byte content of fill 1 and a zero byte changed at 0 are told apart
    v.retain(|c| !(c.len == 1 && c.at.is_none() && c.fill == 0x55));
    v
}
#[derive(Clone, Debug)]
struct Content {
    len: usize,
    fill: u8,
    at: Option<usize>,
}
impl Content {
    fn make(&self) -> Vec<u8> {
        let mut v = vec![self.fill; self.len];
        if let Some(o) = self.at {
            v[o] = 0x55;
        }
        v
    }
}
/// n leaves (fee, data), with one elementary change of the list
fn edited(n: usize, e: u64) -> Option<Vec<(u64, Vec<u8>)>> {
    let mut l: Vec<(u64, Vec<u8>)> = (0..n).map(|i| (i as u64 + 10, vec![i as u8, 7])).collect();
    let nn = n as u64;
    let (kind, rest) = (e / (nn * nn), e % (nn * nn));
    let (i, j) = ((rest / nn) as usize, (rest % nn) as usize);
    match kind {
        // nothing; change a datum; remove; duplicate; swap; move; move a unit of fee; swap data only; swap fees only
        0 => return (rest == 0).then_some(l),
        1 if j == 0 => l[i].1[1] = 8,
        1 if j == 1 => l[i].1.push(0),
        1 if j == 2 => {
            l.remove(i);
        }
        1 if j == 3 => {
            let x = l[i].clone();
            l.insert(i, x)
        }
        1 if j == 4 => l.truncate(i),
        1 if j == 5 => {
            // the last leaf doubled: the classical ambiguity
            let x = l[n - 1].clone();
            l.push(x.clone());
            for _ in 0..i {
                l.push(x.clone())
            }
        }
        2 if i < j => l.swap(i, j),
        3 if i != j && i + 1 != j && j + 1 != i => {
            let x = l.remove(i);
            l.insert(j, x)
        }
        4 if i != j => {
            l[i].0 -= 1;
            l[j].0 += 1;
        }
        5 if i < j => {
            let x = l[i].1.clone();
            l[i].1 = l[j].1.clone();
            l[j].1 = x;
        }
        _ => return None,
    }
    Some(l)
}
fn binding(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    // single contents in the three trees
    let cs = contents(t, true);
    let nc = cs.len() as u64;
    let cs2 = cs.clone();
    let roots: Vec<Roots> = (0..3).map(|_| Roots::new()).collect();
    v.push(Space::new(
        format!("one leaf or entry: {nc} contents of different length, fill, or one byte"),
        nc,
        move |i, acc| {
            let d = cs[i as usize].make();
            let mut b = binary::in_memory::MerkleTree::new();
            b.push(&d);
            let mut s = sparse::in_memory::MerkleTree::new();
            s.update(&ZERO, &d);
            let mut u = crate::p_sum::new_tree();
            (u.push)(3, &d).map_err(|e| format!("push failed: {:?}", e))?;
            let ur = (u.root)().map_err(|e| format!("root failed: {:?}", e))?.1;
            for (k, r) in [b.root(), s.root(), ur].into_iter().enumerate() {
                if let Some(o) = roots[k].meet(r, i) {
                    return Err(format!(
                        "{} tree: the contents {:?} and {:?} have the same root",
                        ["binary", "sparse", "sum"][k],
                        cs[o as usize],
                        cs[i as usize]
                    ));
                }
            }
            acc.step(3);
            acc.trace(3);
            acc.state(&("content", i));
            Ok(())
        },
        move |i| format!("{:?}", cs2[i as usize]),
    ));
    // pairs of contents
    let cs = contents(t, false);
    let nc = cs.len() as u64;
    let cs2 = cs.clone();
    let roots = [Roots::new(), Roots::new(), Roots::new()];
    v.push(Space::new(
        format!("two leaves or entries: all pairs of {nc} contents"),
        nc * nc,
        move |i, acc| {
            let (x, y) = (cs[(i / nc) as usize].make(), cs[(i % nc) as usize].make());
            let mut b = binary::in_memory::MerkleTree::new();
            b.push(&x);
            b.push(&y);
            let mut s = sparse::in_memory::MerkleTree::new();
            s.update(&ZERO, &x);
            s.update(&[0xff; 32], &y);
            let mut u = crate::p_sum::new_tree();
            (u.push)(3, &x).map_err(|e| format!("push failed: {:?}", e))?;
            (u.push)(3, &y).map_err(|e| format!("push failed: {:?}", e))?;
            let ur = (u.root)().map_err(|e| format!("root failed: {:?}", e))?.1;
            for (k, r) in [b.root(), s.root(), ur].into_iter().enumerate() {
                if let Some(o) = roots[k].meet(r, i) {
                    return Err(format!(
                        "{} tree: the contents {:?} and {:?} have the same root",
                        ["binary", "sparse", "sum"][k],
                        (&cs[(o / nc) as usize], &cs[(o % nc) as usize]),
                        (&cs[(i / nc) as usize], &cs[(i % nc) as usize])
                    ));
                }
            }
            acc.step(6);
            acc.trace(3);
            Ok(())
        },
        move |i| format!("{:?} and {:?}", cs2[(i / nc) as usize], cs2[(i % nc) as usize]),
    ));
    // fees
    let mut fs: Vec<u64> = vec![];
    for b in 0..63u32 {
        fs.extend([1u64 << b, (1u64 << b) - 1, u64::MAX >> (b + 1), 0x0101_0101_0101_0101u64.rotate_left(b) >> 1, 0xffu64 << b >> 2]);
    }
    fs.extend([u64::MAX, u64::MAX - 1, 1 << 63]);
    fs.sort();
    fs.dedup();
    let nf = fs.len() as u64;
    let roots = Roots::new();
    let fs2 = fs.clone();
    v.push(Space::new(
        format!("sum: all pairs of {nf} fees whose total fits, and single fees"),
        nf * (nf + 1),
        move |i, acc| {
            let (x, y) = (fs[(i / (nf + 1)) as usize], (i % (nf + 1)).checked_sub(1).map(|j| fs[j as usize]));
            if x.checked_add(y.unwrap_or(0)).is_none() {
                return Ok(());
            }
            let mut u = crate::p_sum::new_tree();
            (u.push)(x, b"d").map_err(|e| format!("push failed: {:?}", e))?;
            if let Some(y) = y {
                (u.push)(y, b"d").map_err(|e| format!("push failed: {:?}", e))?;
            }
            let ur = (u.root)().map_err(|e| format!("root failed: {:?}", e))?.1;
            acc.step(2);
            acc.trace(1);
            match roots.meet(ur, i) {
                Some(o) => Err(format!(
                    "the fees {:?} and {:?} have the same root",
                    (fs[(o / (nf + 1)) as usize], (o % (nf + 1)).checked_sub(1).map(|j| fs[j as usize])),
                    (x, y)
                )),
                None => Ok(()),
            }
        },
        move |i| format!("fees {} and {:?}", fs2[(i / (nf + 1)) as usize], (i % (nf + 1)).checked_sub(1).map(|j| fs2[j as usize])),
    ));
    // elementary edits of longer lists
    let sizes: Vec<usize> = (6..=t.pick(40, 70)).chain([63, 64, 65, 127, 128, 129]).collect();
    let sizes2 = sizes.clone();
    v.push(Space::new(
        "binary and sum: lists and their elementary edits (change, append a byte, remove, double, truncate, swap, move, shift a fee)",
        sizes.len() as u64,
        move |si, acc| {
            let n = sizes[si as usize];
            let mut seen: HashMap<(bool, u64, H), u64> = HashMap::new();
            let nn = (n * n) as u64;
            for e in 0..6 * nn {
                acc.beat();
                let Some(l) = edited(n, e) else { continue };
                let mut b = binary::in_memory::MerkleTree::new();
                let mut u = crate::p_sum::new_tree();
                for (f, d) in &l {
                    if e / nn != 4 {
                        b.push(d);
                    }
                    (u.push)(*f, d).map_err(|x| format!("push failed: {:?}", x))?;
                }
                let (f, h) = (u.root)().map_err(|x| format!("root failed: {:?}", x))?;
                acc.step(l.len() as u64);
                acc.trace(2);
                acc.state(&("edit", n, e));
                let show = |e: u64| {
                    format!(
                        "edit {} ({}, {})",
                        ["none", "single", "swap", "move", "fee moved", "data swapped"][(e / nn) as usize],
                        (e % nn) / n as u64,
                        e % n as u64
                    )
                };
                if let Some(o) = seen.insert((true, f, h), e) {
                    if edited(n, o) != Some(l.clone()) {
                        return Err(format!("sum tree of {n} leaves: {} and {} have the same root", show(o), show(e)));
                    }
                }
                if e / nn != 4 {
                    if let Some(o) = seen.insert((false, 0, b.root()), e) {
                        let data = |l: Vec<(u64, Vec<u8>)>| l.into_iter().map(|x| x.1).collect::<Vec<_>>();
                        if data(edited(n, o).unwrap()) != data(l) {
                            return Err(format!("binary tree of {n} leaves: {} and {} have the same root", show(o), show(e)));
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves and edits", sizes2[i as usize]),
    ));
    // sizes: lists of n equal leaves
    let max = t.pick(20_000u64, 200_000);
    v.push(Space::new(
        format!("lists of 0..={max} equal leaves"),
        2,
        move |s, acc| {
            let mut seen: HashMap<H, u64> = HashMap::new();
            let mut b = binary::in_memory::MerkleTree::new();
            let mut u = crate::p_sum::new_tree();
            for n in 0..=max {
                acc.beat();
                let r = if s == 0 { b.root() } else { (u.root)().map_err(|e| format!("{:?}", e))?.1 };
                if let Some(o) = seen.insert(r, n) {
                    return Err(format!("{o} and {n} equal leaves have the same {} root", ["binary", "sum"][s as usize]));
                }
                if s == 0 {
                    b.push(b"same");
                } else {
                    (u.push)(0, b"same").map_err(|e| format!("{:?}", e))?;
                }
                acc.step(1);
            }
            acc.trace(1);
            acc.state(&("equal", s));
            Ok(())
        },
        |s| ["binary", "sum"][s as usize].into(),
    ));
    // sparse: all subsets of keys, one value
    let bits = t.pick(14u32, 17);
    for (name, keys) in shapes() {
        let bits = if p_sparse::is_deep(name) { bits - 2 } else { bits };
        let mut ks: Vec<H> = keys.clone();
        let mut j = 0;
        while ks.len() < bits as usize {
            // interleave close and far keys
            let k = if j % 2 == 0 { flip(&keys[j % keys.len()], 255 - j) } else { flip(&keys[j % keys.len()], j) };
            if !ks.contains(&k) {
                ks.push(k);
            }
            j += 1;
        }
        ks.truncate(bits as usize);
        let ks2 = ks.clone();
        let roots = Roots::new();
        v.push(Space::new(
            format!("sparse: all subsets of {bits} keys/{name}"),
            1 << bits,
            move |mask, acc| {
                let mut s = sparse::in_memory::MerkleTree::new();
                for (j, k) in ks.iter().enumerate() {
                    if mask >> j & 1 == 1 {
                        s.update(k, b"x");
                        acc.step(1);
                    }
                }
                acc.trace(1);
                let r = s.root();
                acc.state(&("subset", r));
                match roots.meet(r, mask) {
                    Some(o) => Err(format!("the key sets {o:#b} and {mask:#b} have the same root")),
                    None => Ok(()),
                }
            },
            move |m| format!("{:?}", ks2.iter().enumerate().filter(|(j, _)| m >> j & 1 == 1).map(|(_, k)| hx(k)).collect::<Vec<_>>()),
        ));
    }
    // sparse: growing maps never repeat a root
    let n = t.pick(10_000u32, 200_000);
    v.push(Space::new(
        format!("sparse: {n} growing maps and one change of a value in each"),
        4,
        move |s, acc| {
            let mut seen: HashMap<H, u32> = HashMap::new();
            let mut tr = sparse::in_memory::MerkleTree::new();
            let m = if s < 2 { n } else { 256 };
            for i in 0..m {
                acc.beat();
                let k = match s {
                    0 => sha(&[&i.to_be_bytes()]),
                    1 => {
                        let mut k = [0x33; 32];
                        k[28..].copy_from_slice(&i.to_be_bytes());
                        k
                    }
                    2 => flip(&p_sparse::base(0), i as usize),
                    _ => flip(&p_sparse::base(3), 255 - i as usize),
                };
                for val in [&b"v"[..], b"w"] {
                    tr.update(&k, val);
                    if let Some(o) = seen.insert(tr.root(), i) {
                        return Err(format!("the maps after {o} and {i} insertions have the same root"));
                    }
                    acc.step(1);
                }
            }
            acc.trace(1);
            acc.state(&("growing", s));
            Ok(())
        },
        |s| format!("key family {s}"),
    ));
    v
}
fn list_upto(b: u64, mut i: u64, max: usize) -> Vec<usize> {
    for len in 0..=max {
        let n = b.pow(len as u32);
        if i < n {
            return digits(i, b, len);
        }
        i -= n;
    }
    unreachable!()
}

// ------------------------------------------------------------------ C25

/// every (row height, number) position is the root of a perfect tree; its path to a leaf below
fn perfect_path(h: u32, i: u64, leaf: u64, consume: bool) -> Res {
    use fuel_merkle::common::AsPathIterator;
    let root = Position::from_in_order_index(idx(h, i) as u64);
    let l = Position::from_leaf_index(leaf);
    let mut want: Vec<(u64, u64)> = vec![(idx(h, i) as u64, idx(h, i) as u64)];
    for k in (0..h).rev() {
        want.push((idx(k, leaf >> k) as u64, idx(k, (leaf >> k) ^ 1) as u64));
    }
    let mut got = vec![];
    for (a, b) in root.as_path_iter(&l) {
        match (a, b) {
            (Ok(a), Ok(b)) => got.push((a.in_order_index(), b.in_order_index())),
            (a, b) => {
                return Err(format!("the path from {} to leaf {leaf} holds an error: {} {}", root.in_order_index(), a.is_err(), b.is_err()))
            }
        }
        if got.len() > want.len() {
            break;
        }
    }
    if got != want {
        return Err(format!("the path from {} (height {h}) to leaf {leaf} is {:?}, expected {:?}", root.in_order_index(), got, want));
    }
    if consume {
        let item = |(a, b): (_, _)| {
            let of = |x: Result<Position, _>| x.map_or(u64::MAX, |p| p.in_order_index());
            (of(a), of(b))
        };
        consumed(|| root.as_path_iter(&l), item, &want)
            .map_err(|e| format!("the path from {} to leaf {leaf}: {e}", root.in_order_index()))?;
    }
    Ok(())
}
pub fn c25(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(13u32, 16);
    v.push(Space::new(
        format!("every root of height at most {max} among the first 2^{max} leaves, every leaf below"),
        1 << (max - 2),
        move |blk, acc| {
            for leaf in blk * 4..blk * 4 + 4 {
                acc.beat();
                for h in 0..=max {
                    perfect_path(h, leaf >> h, leaf, leaf < 512)?;
                    acc.step(h as u64 + 1);
                    acc.trace(1);
                    acc.state(&(h, leaf));
                }
            }
            Ok(())
        },
        |b| format!("leaves {}..{}", b * 4, b * 4 + 4),
    ));
    v.push(Space::new(
        "roots of all 64 heights, structured roots and leaves over 64 bits",
        64,
        move |h, acc| {
            let h = h as u32;
            let row = 63 - h;
            let n = 1u128 << row;
            let mut is: Vec<u128> = (0..70).collect();
            for k in 0..=row {
                let p = 1u128 << k;
                is.extend([p, p + 1, p.wrapping_sub(1), n.wrapping_sub(p), n.wrapping_sub(p + 1), n - 1, (n - 1) ^ p]);
            }
            is.extend((0..t.pick(200u128, 2000)).map(|j| (0x9e37_79b9_7f4a_7c15u128 * (j + 1)) % n));
            is.retain(|i| *i < n);
            is.sort();
            is.dedup();
            let mut below: Vec<u64> = vec![];
            let w = if h == 0 { 1 } else { 1u64 << h };
            for k in 0..=h.min(62) {
                let p = 1u64 << k;
                below.extend([
                    p,
                    p - 1,
                    p + 1,
                    w.wrapping_sub(p),
                    w - 1,
                    (w - 1) ^ p,
                    0,
                    0x5555_5555_5555_5555 & (w - 1),
                    0xaaaa_aaaa_aaaa_aaaa & (w - 1),
                ]);
            }
            below.retain(|x| *x < w);
            below.sort();
            below.dedup();
            for (j, i) in is.into_iter().enumerate() {
                for b in &below {
                    acc.beat();
                    let leaf = ((i as u64) << h.min(63)) | b;
                    if idx(0, leaf) >= (1u128 << 64) - 1 {
                        continue;
                    }
                    guard(|| perfect_path(h, i as u64, leaf, j % t.pick(40, 30) == 1))
                        .unwrap_or_else(|p| Err(format!("height {h}, number {i}, leaf {leaf}: panic: {p}")))?;
                    acc.step(h as u64 + 1);
                    acc.trace(1);
                    acc.state(&(h, i, b));
                }
            }
            Ok(())
        },
        |h| format!("roots of height {h}"),
    ));
    v
}
