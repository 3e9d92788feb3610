//! C23: the proof verifier and reference tree of the helper crate.
use crate::engine::*;
use crate::p_binary::{self, data};
use crate::p_sparse;
use crate::refm::*;
use crate::Tier;
use fuel_merkle::binary;
use fuel_merkle_test_helpers::binary::{verify, MerkleTree as RefTree};

fn ref_proof(leaves: &[Vec<u8>], i: u64) -> (H, Vec<H>) {
    let mut r = RefTree::new();
    r.set_proof_index(i);
    for d in leaves {
        r.push(d);
    }
    r.prove()
}
fn call(root: &H, p: &Vec<H>, i: u64, n: u64) -> Result<bool, String> {
    guard(|| verify(root, p, i, n)).map_err(|e| format!("verify(index {i} of {n}, proof of {} digests) panicked: {e}", p.len()))
}

/// The recorded finding (KNOWN_FINDINGS.txt): once the complete subtrees around the leaf are used
/// up, the verifier folds whatever digests it is given, however few. The claims concerned are
/// exactly those this model accepts although the RFC's algorithm rejects them.
fn folds_leftovers(root: &H, p: &[H], i: u64, n: u64) -> bool {
    if i >= n || p.is_empty() {
        return false;
    }
    let (mut sum, mut end, mut k) = (p[0], i as u128, 1usize);
    loop {
        let size = 1u128 << k;
        let start = i as u128 / size * size;
        if start + size > n as u128 {
            break;
        }
        end = start + size - 1;
        let Some(d) = p.get(k) else { return false };
        sum = if i as u128 - start < size / 2 { node(&sum, d) } else { node(d, &sum) };
        k += 1;
    }
    if end != n as u128 - 1 {
        let Some(d) = p.get(k) else { return false };
        sum = node(&sum, d);
        k += 1;
    }
    for d in p.iter().skip(k) {
        sum = node(d, &sum);
    }
    sum == *root
}
fn listed(prop: &'static str) -> bool {
    static L: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        ["C23", "C31"].into_iter().filter(|p| crate::known_findings(p).iter().any(|l| l.contains(" id=inner-node-as-leaf "))).collect()
    })
    .contains(&prop)
}
/// Is the acceptance of this claim recorded?
pub fn recorded(prop: &'static str, root: &H, p: &[H], i: u64, n: u64, acc: &Acc) -> bool {
    let r = listed(prop) && folds_leftovers(root, p, i, n) && !verify_rfc(root, p, i, n);
    if r {
        acc.note("claims accepted as the recorded finding inner-node-as-leaf describes", 1);
    }
    r
}
/// Does the verifier's answer differ from the RFC's, other than as recorded?
fn wrong(root: &H, p: &Vec<H>, i: u64, n: u64, want: bool, acc: &Acc) -> Result<bool, String> {
    let got = call(root, p, i, n)?;
    Ok(got != want && !(got && recorded("C23", root, p, i, n, acc)))
}
/// The recorded finding's own example.
pub fn known(prop: &'static str) {
    let m = BinModel::from_leaves([b"a", b"b", b"c"].iter().map(|d| &d[..]));
    let root = m.root();
    if listed(prop) && matches!(call(&root, &vec![root], 2, 3), Ok(true)) {
        println!(
            "KNOWN-FINDING: property={prop} verify() accepts the digest of an inner node as proof of a leaf: verify(root, [root], 2, 3)"
        );
    }
}

/// A tree of equal leaves but for one, so that subtrees of any size are cheap.
struct Marked {
    uniform: &'static [H],
    mark: u64,
}
fn uniform() -> &'static [H] {
    static U: std::sync::OnceLock<Vec<H>> = std::sync::OnceLock::new();
    U.get_or_init(|| {
        let mut v = vec![leaf(b"leaf")];
        for k in 0..63 {
            let x: H = v[k];
            v.push(node(&x, &x));
        }
        v
    })
}
impl Marked {
    fn new(mark: u64) -> Self {
        Marked { uniform: uniform(), mark }
    }
}
impl Perfect for Marked {
    fn perfect(&self, a: u64, size: u64) -> H {
        if self.mark < a || self.mark - a >= size {
            return self.uniform[size.trailing_zeros() as usize];
        }
        if size == 1 {
            return leaf(b"marked");
        }
        node(&self.perfect(a, size / 2), &self.perfect(a + size / 2, size / 2))
    }
}

pub fn c23(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(260u64, 700);
    v.push(Space::new(
        format!("both provers and the verifier agree, every index of every size up to {max}"),
        max,
        move |j, acc| {
            let n = max - j;
            let leaves: Vec<Vec<u8>> = (0..n).map(|i| data(1, i)).collect();
            let mut m = BinModel::new();
            let mut im = binary::in_memory::MerkleTree::new();
            let mut rt = RefTree::new();
            for d in &leaves {
                m.push(d);
                im.push(d);
                rt.push(d);
            }
            let root = m.root();
            if rt.root() != root || im.root() != root || rt.leaves_count() != n {
                return Err(format!("{n} leaves: the reference tree's root differs"));
            }
            for i in 0..n {
                acc.beat();
                let (rr, rp) = ref_proof(&leaves, i);
                let (tr, tp) = im.prove(i).ok_or(format!("no proof of {i} of {n}"))?;
                if rr != tr || rp != tp {
                    return Err(format!("{n} leaves: the reference tree's proof of {i} differs from the binary tree's"));
                }
                if tp != m.proof(i) {
                    return Err(format!("{n} leaves: the proof of {i} is not the audit path"));
                }
                if !call(&tr, &tp, i, n)? {
                    return Err(format!("verify rejects the genuine proof of {i} of {n}"));
                }
                acc.step(3);
                acc.state(&(n, i));
            }
            acc.trace(n);
            Ok(())
        },
        move |j| format!("{} leaves", max - j),
    ));
    v.push(Space::new(
        "empty trees",
        1,
        |_, acc| {
            let rt = RefTree::new();
            let mut im = binary::in_memory::MerkleTree::new();
            if rt.root() != empty() || im.root() != empty() {
                return Err("empty roots differ".into());
            }
            let (r, p) = RefTree::new().prove();
            if r != empty() || !p.is_empty() || im.prove(0).is_some() {
                return Err("an empty tree gives a proof".into());
            }
            for i in [0, 1, u64::MAX] {
                if call(&r, &vec![], i, 0)? || call(&r, &vec![r], i, 0)? {
                    return Err("verify accepts a proof for an empty tree".into());
                }
                acc.step(2);
                acc.state(&i);
            }
            acc.trace(1);
            Ok(())
        },
        |_| "no leaves".into(),
    ));
    // tampering
    let max = t.pick(70u64, 190);
    v.push(Space::new(
        format!("every tampering of every proof of every size up to {max}"),
        max,
        move |j, acc| {
            let n = max - j;
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let root = m.root();
            for i in 0..n {
                acc.beat();
                let p = m.proof(i);
                let reject = |what: String, root: &H, p: &Vec<H>, i: u64| -> Res {
                    acc.step(1);
                    if call(root, p, i, n).map_err(|e| format!("{what}: {e}"))? {
                        return Err(format!("{n} leaves, index {i}: accepted with {what}"));
                    }
                    Ok(())
                };
                acc.state(&(n, i));
                for b in (0..256).step_by(if n < 20 { 1 } else { 37 }) {
                    reject(format!("bit {b} of the root flipped"), &flip(&root, b), &p, i)?;
                    for e in 0..p.len() {
                        let mut q = p.clone();
                        q[e] = flip(&q[e], b);
                        reject(format!("bit {b} of digest {e} flipped"), &root, &q, i)?;
                    }
                }
                for r in [ZERO, empty(), p[0], m.perfect(0, 1)] {
                    if r != root {
                        reject("another root".into(), &r, &p, i)?;
                    }
                }
                reject("an empty proof".into(), &root, &vec![], i)?;
                for e in 0..p.len() {
                    let mut q = p.clone();
                    q.remove(e);
                    reject(format!("digest {e} dropped"), &root, &q, i)?;
                    q = p.clone();
                    q.truncate(e);
                    reject(format!("only the first {e} digests"), &root, &q, i)?;
                    for x in [p[e], ZERO, root, empty()] {
                        let mut q = p.clone();
                        q.insert(e, x);
                        if q != p {
                            reject(format!("{} inserted before digest {e}", hx(&x)), &root, &q, i)?;
                        }
                    }
                    for f in e + 1..p.len() {
                        let mut q = p.clone();
                        q.swap(e, f);
                        if q != p {
                            reject(format!("digests {e} and {f} swapped"), &root, &q, i)?;
                        }
                    }
                    let mut q = p.clone();
                    q[e] = ZERO;
                    reject(format!("digest {e} zeroed"), &root, &q, i)?;
                }
                for x in [p[0], ZERO, root, empty(), *p.last().unwrap()] {
                    let mut q = p.clone();
                    q.push(x);
                    reject(format!("{} appended", hx(&x)), &root, &q, i)?;
                    q.push(x);
                    reject(format!("{} appended twice", hx(&x)), &root, &q, i)?;
                }
                let mut q = p.clone();
                q.reverse();
                if q != p {
                    reject("the digests reversed".into(), &root, &q, i)?;
                }
                for other in (0..n).chain([n, n + 1, 2 * n, u64::MAX, 1 << 63, i + (1 << 32), i.wrapping_add(n.next_power_of_two())]) {
                    if other != i {
                        reject(format!("the index {i} replaced by {other}"), &root, &p, other)?;
                    }
                }
                // the proof of another leaf
                for other in 0..n.min(40) {
                    if other != i {
                        reject(format!("the proof of leaf {other}"), &root, &m.proof(other), i)?;
                    }
                }
            }
            acc.trace(n);
            Ok(())
        },
        move |j| format!("{} leaves, all tamperings", max - j),
    ));
    // nothing else: every sequence of digests occurring in the tree, as the proof of every index
    let top = t.pick(8u64, 9);
    let longest = t.pick(4usize, 5);
    v.push(Space::new(
        format!("every sequence of up to {longest} of the digests in a tree, as the proof of every index, trees of up to {top} leaves"),
        top * (2 * top - 1),
        move |j, acc| {
            // one case: a tree and the first digest
            let (n, first) = (1 + j / (2 * top - 1), j % (2 * top - 1));
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let root = m.root();
            let mut nodes: Vec<H> = vec![];
            for i in 0..n {
                for ((a, b), (c, d)) in path_ranges(i, n) {
                    for h in [range_hash(&m, a, b), range_hash(&m, c, d)] {
                        if !nodes.contains(&h) {
                            nodes.push(h);
                        }
                    }
                }
            }
            if nodes.len() as u64 != 2 * n - 1 {
                return Err(format!("model: {} nodes of {n} leaves", nodes.len()));
            }
            if first >= 2 * n - 1 {
                return Ok(());
            }
            let b = nodes.len() as u64;
            for l in 0..longest {
                for x in 0..b.pow(l as u32) {
                    if x % 1000 == 0 {
                        acc.beat();
                    }
                    let mut p = vec![nodes[first as usize]];
                    p.extend(digits(x, b, l).into_iter().map(|k| nodes[k]));
                    for i in 0..n {
                        let want = p == m.proof(i);
                        if wrong(&root, &p, i, n, want, acc)? {
                            return Err(format!(
                                "{n} leaves, index {i}: {} [{}]",
                                if want { "rejected the genuine" } else { "accepted as a proof" },
                                p_binary::pshow(&p)
                            ));
                        }
                        acc.step(1);
                    }
                    acc.state(&(n, &p));
                }
            }
            acc.trace(1);
            Ok(())
        },
        move |j| format!("{} leaves, first digest number {}", 1 + j / (2 * top - 1), j % (2 * top - 1)),
    ));
    // claims about other leaf counts: the verifier decides as the RFC's algorithm does
    let top = t.pick(20u64, 40);
    v.push(Space::new(
        format!(
            "every proof of trees of up to {top} leaves, whole, cut and extended, claimed for every index of every count up to {}",
            2 * top
        ),
        top,
        move |j, acc| {
            let n = top - j;
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let root = m.root();
            let mut big: Vec<u64> = (0..63).flat_map(|k| [1u64 << k, (1 << k) + 1, (1 << k) - 1]).collect();
            big.extend([(1 << 63) - 1, (1 << 63) - 2]);
            big.retain(|c| *c > 0);
            for i in 0..n {
                let p = m.proof(i);
                let mut ps = vec![p.clone()];
                for e in 0..p.len() {
                    let mut q = p.clone();
                    q.remove(e);
                    ps.push(q);
                    ps.push(p[e..].to_vec());
                    ps.push(p[..e].to_vec());
                    ps.push(p[..=e].iter().chain(&p[e..]).cloned().collect());
                }
                ps.push(p.iter().chain(&[root]).cloned().collect());
                // digests of the leaf's ancestors in its place
                let path = path_ranges(i, n);
                for (k, ((a, b), _)) in path.iter().enumerate() {
                    let mut q = p.clone();
                    q.drain(..path.len() - 1 - k);
                    q[0] = range_hash(&m, *a, *b);
                    ps.push(q);
                }
                for p in &ps {
                    acc.beat();
                    let mut one = |x: u64, c: u64| -> Res {
                        let want = x < c && verify_rfc(&root, p, x, c);
                        if wrong(&root, p, x, c, want, acc)? {
                            return Err(format!(
                                "root of {n} leaves, claimed index {x} of {c}: {} [{}]",
                                if want { "rejected" } else { "accepted" },
                                p_binary::pshow(p)
                            ));
                        }
                        acc.step(1);
                        acc.state(&(&root, p, x, c));
                        Ok(())
                    };
                    for c in 0..=2 * top {
                        for x in 0..=c {
                            one(x, c)?;
                        }
                    }
                    for &c in &big {
                        for x in [0, i, c - 1, c.wrapping_sub(n - i), c / 2] {
                            one(x, c)?;
                        }
                    }
                }
            }
            acc.trace(n);
            Ok(())
        },
        move |j| format!("root and proofs of {} leaves, all claims", top - j),
    ));
    // reference tree over adversarial contents
    let al = p_binary::adversarial();
    let b = al.len() as u64;
    let len = t.pick(4, 5);
    let al2 = al.clone();
    v.push(Space::new(
        format!("reference tree, binary tree and verifier on all lists of at most {len} leaves over {b} imitating contents"),
        p_sparse::count_upto(b, len) - 1,
        move |i, acc| {
            let mut i = i + 1;
            let mut d = vec![];
            for l in 0..=len {
                let n = b.pow(l as u32);
                if i < n {
                    d = digits(i, b, l);
                    break;
                }
                i -= n;
            }
            let leaves: Vec<Vec<u8>> = d.iter().map(|&x| al[x].clone()).collect();
            let mut im = binary::in_memory::MerkleTree::new();
            for l in &leaves {
                im.push(l);
            }
            for i in 0..leaves.len() as u64 {
                let (rr, rp) = ref_proof(&leaves, i);
                let (tr, tp) = im.prove(i).ok_or("no proof")?;
                if rr != tr || rp != tp {
                    return Err(format!("leaves {:?}: the reference tree's proof of {i} differs", d));
                }
                if !call(&tr, &tp, i, leaves.len() as u64)? {
                    return Err(format!("leaves {:?}: verify rejects the proof of {i}", d));
                }
                acc.step(2);
                acc.state(&(tr, i));
            }
            acc.trace(1);
            Ok(())
        },
        move |i| format!("list number {} over contents {:?}", i + 1, al2.iter().map(|x| hx(x)).collect::<Vec<_>>()),
    ));
    v.push(crate::p_content::space("reference tree", t, |fam, a, acc| {
        if a > 1 {
            return Ok(());
        }
        let mut m = BinModel::new();
        let mut rt = RefTree::new();
        for b in fam {
            for c in [&fam[a], b] {
                rt.push(c);
                m.push(c);
                if rt.root() != m.root() {
                    return Err(format!("the reference tree's root is wrong after a content of {} bytes", c.len()));
                }
            }
            acc.beat();
        }
        Ok(())
    }));
    // large indices and counts must not panic
    let mut counts = p_binary::structured_counts(t);
    if !t.thorough() {
        // every count up to 200 and every third of the others
        counts = counts.iter().enumerate().filter(|(i, n)| **n <= 200 || i % 3 == 0).map(|(_, n)| *n).collect();
    }
    v.push(Space::new(
        "verify on structured 64-bit counts and proof lengths up to 64",
        counts.len() as u64,
        move |ci, acc| {
            let n = counts[ci as usize];
            if n == 0 {
                return Ok(());
            }
            for i in p_binary::structured_indices(n) {
                acc.beat();
                let m = Marked::new(i);
                let root = root_of(&m, n);
                let p = audit(&m, i, n);
                if !call(&root, &p, i, n)? {
                    return Err(format!("verify rejects the genuine proof of {i} of {n}"));
                }
                let mut q = p.clone();
                q[0] = flip(&q[0], 3);
                if call(&root, &q, i, n)? {
                    return Err(format!("verify accepts a tampered proof of {i} of {n}"));
                }
                q = p.clone();
                q.push(ZERO);
                if call(&root, &q, i, n)? {
                    return Err(format!("verify accepts an extended proof of {i} of {n}"));
                }
                q.truncate(p.len() - 1);
                if call(&root, &q, i, n)? {
                    return Err(format!("verify accepts a shortened proof of {i} of {n}"));
                }
                acc.step(4);
                acc.state(&(n, i));
            }
            acc.trace(1);
            Ok(())
        },
        |i| format!("structured count number {i}"),
    ));
    v
}
