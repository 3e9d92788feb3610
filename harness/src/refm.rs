//! Executable reference models, written from the specifications, sharing no code with /repo.
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type H = [u8; 32];
pub const ZERO: H = [0u8; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Short form for messages.
pub fn hx(b: &[u8]) -> String {
    if b.len() <= 8 {
        return hex(b);
    }
    format!("{}..{}", hex(&b[..4]), hex(&b[b.len() - 2..]))
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The hash function itself is trusted only as far as published test vectors.
pub fn selftest() {
    let v = [
        ("", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        ("abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        ("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
    ];
    for (m, d) in v {
        assert_eq!(&sha(&[m.as_bytes()])[..], &unhex(d)[..]);
    }
    // RFC 6962 test vectors (Certificate Transparency reference leaves).
    let leaves: Vec<Vec<u8>> = ["", "00", "10", "2021", "3031", "40414243", "5051525354555657", "606162636465666768696a6b6c6d6e6f"]
        .iter()
        .map(|s| unhex(s))
        .collect();
    let l: Vec<H> = leaves.iter().map(|d| leaf(d)).collect();
    assert_eq!(hex(&mth(&l[..1])), "6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d");
    assert_eq!(hex(&mth(&l[..3])), "aeb6bcfe274b70a14fb067a5e5578264db0fa9b51af5e0ba159158f329e06e77");
    assert_eq!(hex(&mth(&l[..8])), "5dc9da79a70659a9ad559cb701ded9a2ab9d823aad2f4960cfe370eff4604328");
}

// ---------------------------------------------------------------- RFC 6962

pub fn empty() -> H {
    sha(&[])
}
pub fn leaf(d: &[u8]) -> H {
    sha(&[&[0], d])
}
pub fn node(l: &H, r: &H) -> H {
    sha(&[&[1], l, r])
}
/// Largest power of two strictly below n (n >= 2).
pub fn split(n: u64) -> u64 {
    let mut k = 1u64;
    while k < n - k {
        k *= 2;
    }
    k
}
/// Merkle tree hash of a list of leaf digests.
pub fn mth(l: &[H]) -> H {
    match l.len() {
        0 => empty(),
        1 => l[0],
        n => {
            let k = split(n as u64) as usize;
            node(&mth(&l[..k]), &mth(&l[k..]))
        }
    }
}

/// In-order index of the node covering leaves [a, b) of an RFC 6962 tree.
/// None when it would not be a 64-bit position.
pub fn in_order(a: u64, b: u64) -> u64 {
    let size = b - a;
    let up = size.next_power_of_two();
    2 * a + (up - 1)
}

/// Where digests of subtrees come from: a provider of perfect, aligned subtrees.
pub trait Perfect {
    /// digest of the perfect subtree over [a, a+size), size a power of two dividing a
    fn perfect(&self, a: u64, size: u64) -> H;
}
/// Digest of leaves [a,b) (b > a) given perfect subtrees.
pub fn range_hash<P: Perfect + ?Sized>(p: &P, a: u64, b: u64) -> H {
    let n = b - a;
    if n.is_power_of_two() {
        return p.perfect(a, n);
    }
    let k = split(n);
    node(&range_hash(p, a, a + k), &range_hash(p, a + k, b))
}
pub fn root_of<P: Perfect + ?Sized>(p: &P, n: u64) -> H {
    if n == 0 {
        empty()
    } else {
        range_hash(p, 0, n)
    }
}
/// Leaf digest followed by siblings from leaf to root.
pub fn audit<P: Perfect + ?Sized>(p: &P, i: u64, n: u64) -> Vec<H> {
    let mut top_down = vec![];
    let (mut a, mut b) = (0, n);
    while b - a > 1 {
        let m = a + split(b - a);
        if i < m {
            top_down.push(range_hash(p, m, b));
            b = m;
        } else {
            top_down.push(range_hash(p, a, m));
            a = m;
        }
    }
    top_down.push(p.perfect(a, 1));
    top_down.reverse();
    top_down
}
/// Top-down list of (path node range, sibling range) of leaf i in a tree of n leaves; root with itself.
pub fn path_ranges(i: u64, n: u64) -> Vec<((u64, u64), (u64, u64))> {
    let mut v = vec![((0, n), (0, n))];
    let (mut a, mut b) = (0, n);
    while b - a > 1 {
        let m = a + split(b - a);
        if i < m {
            v.push(((a, m), (m, b)));
            b = m;
        } else {
            v.push(((m, b), (a, m)));
            a = m;
        }
    }
    v
}
/// Peaks (maximal perfect subtrees) of n leaves, left to right, as (start, size).
pub fn peaks(n: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut a = 0u64;
    for bit in (0..64).rev() {
        let s = 1u64 << bit;
        if n & s != 0 {
            v.push((a, s));
            a = a.wrapping_add(s);
        }
    }
    v
}
/// Independent verifier (RFC 9162 2.1.3.2). `proof` is leaf digest then siblings.
pub fn verify_rfc(root: &H, proof: &[H], index: u64, n: u64) -> bool {
    if index >= n || proof.is_empty() {
        return false;
    }
    let (mut f, mut s) = (index, n - 1);
    let mut r = proof[0];
    for p in &proof[1..] {
        if s == 0 {
            return false;
        }
        if f & 1 == 1 || f == s {
            r = node(p, &r);
            if f & 1 == 0 {
                loop {
                    f >>= 1;
                    s >>= 1;
                    if f & 1 == 1 || f == 0 {
                        break;
                    }
                }
            }
        } else {
            r = node(&r, p);
        }
        f >>= 1;
        s >>= 1;
    }
    s == 0 && r == *root
}

/// A growing list of leaf digests with all perfect subtrees tabulated.
#[derive(Clone, Default)]
pub struct BinModel {
    pub levels: Vec<Vec<H>>,
}
impl BinModel {
    pub fn new() -> Self {
        BinModel { levels: vec![vec![]] }
    }
    pub fn from_leaves<'a>(it: impl Iterator<Item = &'a [u8]>) -> Self {
        let mut m = Self::new();
        for d in it {
            m.push(d);
        }
        m
    }
    pub fn len(&self) -> u64 {
        self.levels[0].len() as u64
    }
    pub fn push(&mut self, d: &[u8]) {
        self.push_digest(leaf(d))
    }
    pub fn push_digest(&mut self, h: H) {
        self.levels[0].push(h);
        let mut l = 0;
        while self.levels[l].len() % 2 == 0 {
            let k = self.levels[l].len();
            let x = node(&self.levels[l][k - 2], &self.levels[l][k - 1]);
            l += 1;
            if self.levels.len() <= l {
                self.levels.push(vec![]);
            }
            self.levels[l].push(x);
        }
    }
    pub fn truncate(&mut self, n: u64) {
        for (h, l) in self.levels.iter_mut().enumerate() {
            l.truncate((n >> h) as usize);
        }
    }
    pub fn root(&self) -> H {
        root_of(self, self.len())
    }
    pub fn root_at(&self, n: u64) -> H {
        root_of(self, n)
    }
    pub fn proof(&self, i: u64) -> Vec<H> {
        audit(self, i, self.len())
    }
    pub fn proof_at(&self, i: u64, n: u64) -> Vec<H> {
        audit(self, i, n)
    }
    /// All (in-order index, digest) of perfect subtrees of the first n leaves.
    pub fn stored(&self, n: u64) -> Vec<(u64, H)> {
        let mut v = vec![];
        for (h, l) in self.levels.iter().enumerate() {
            let size = 1u64 << h;
            for (j, x) in l.iter().enumerate() {
                let a = j as u64 * size;
                if a + size <= n {
                    v.push((2 * a + size - 1, *x));
                }
            }
        }
        v.sort();
        v
    }
}
impl Perfect for BinModel {
    fn perfect(&self, a: u64, size: u64) -> H {
        let h = size.trailing_zeros() as usize;
        self.levels[h][(a >> h) as usize]
    }
}

// ---------------------------------------------------------------- sum tree

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SNode {
    pub height: u32,
    pub fee: u128,
    pub hash: H,
    pub children: Option<(H, H)>,
}
pub fn sum_leaf(fee: u64, data: &[u8]) -> SNode {
    SNode { height: 0, fee: fee as u128, hash: sha(&[&[0], &fee.to_be_bytes(), data]), children: None }
}
pub fn sum_join(l: &SNode, r: &SNode) -> SNode {
    // fees are only meaningful while they fit 64 bits; the caller checks the total
    let (lf, rf) = (l.fee as u64, r.fee as u64);
    SNode {
        height: l.height.max(r.height) + 1,
        fee: l.fee + r.fee,
        hash: sha(&[&[1], &lf.to_be_bytes(), &l.hash, &rf.to_be_bytes(), &r.hash]),
        children: Some((l.hash, r.hash)),
    }
}
/// Root node and (through `out`) every node of the tree over `l`.
pub fn sum_tree(l: &[SNode], out: &mut Vec<SNode>) -> SNode {
    let n = if l.len() == 1 {
        l[0].clone()
    } else {
        let k = split(l.len() as u64) as usize;
        let a = sum_tree(&l[..k], out);
        let b = sum_tree(&l[k..], out);
        sum_join(&a, &b)
    };
    out.push(n.clone());
    n
}
pub fn sum_root(l: &[SNode]) -> (u128, H) {
    if l.is_empty() {
        return (0, empty());
    }
    let r = sum_fold(l);
    (r.fee, r.hash)
}
fn sum_fold(l: &[SNode]) -> SNode {
    if l.len() == 1 {
        return l[0].clone();
    }
    let k = split(l.len() as u64) as usize;
    sum_join(&sum_fold(&l[..k]), &sum_fold(&l[k..]))
}

// ---------------------------------------------------------------- sparse

pub type Prim = (u32, u8, H, H);
pub fn bit(k: &H, d: usize) -> bool {
    k[d >> 3] & (0x80 >> (d & 7)) != 0
}
/// key -> digest of value
pub type SMap = BTreeMap<H, H>;

pub fn sp_leaf(k: &H, vh: &H) -> H {
    sha(&[&[0], k, vh])
}
pub fn value_digest(v: &[u8]) -> H {
    sha(&[v])
}
fn smt_rec(e: &[(&H, &H)], d: usize, out: &mut Option<&mut Vec<(H, Prim)>>) -> H {
    match e.len() {
        0 => ZERO,
        1 => {
            let h = sp_leaf(e[0].0, e[0].1);
            if let Some(o) = out {
                o.push((h, (0, 0, *e[0].0, *e[0].1)));
            }
            h
        }
        _ => {
            let m = e.partition_point(|(k, _)| !bit(k, d));
            let l = smt_rec(&e[..m], d + 1, out);
            let r = smt_rec(&e[m..], d + 1, out);
            let h = sha(&[&[1], &l, &r]);
            if let Some(o) = out {
                o.push((h, (256 - d as u32, 1, l, r)));
            }
            h
        }
    }
}
pub fn sp_root(m: &SMap) -> H {
    let e: Vec<(&H, &H)> = m.iter().collect();
    smt_rec(&e, 0, &mut None)
}
/// Every node of the canonical tree: (digest, stored form).
pub fn sp_nodes(m: &SMap) -> Vec<(H, Prim)> {
    let e: Vec<(&H, &H)> = m.iter().collect();
    let mut v = vec![];
    smt_rec(&e, 0, &mut Some(&mut v));
    v
}
/// Digests of the nodes on the path from the root to a present key.
pub fn sp_path(m: &SMap, key: &H) -> Vec<H> {
    let mut cur: Vec<(&H, &H)> = m.iter().collect();
    let mut v = vec![];
    let mut d = 0;
    while cur.len() > 1 {
        v.push(smt_rec(&cur, d, &mut None));
        let b = bit(key, d);
        cur.retain(|(k, _)| bit(k, d) == b);
        d += 1;
    }
    v.push(smt_rec(&cur, d, &mut None));
    v
}
pub fn flip(k: &H, d: usize) -> H {
    let mut x = *k;
    x[d >> 3] ^= 0x80 >> (d & 7);
    x
}

/// The sparse tree of a growing and shrinking map, with cached digests: for trees too large for
/// `sp_root` on every operation. Checked against `sp_root` by `selftest_incremental`.
#[derive(Default)]
pub enum Trie {
    #[default]
    Empty,
    Leaf(H, H, H),
    Inner(H, Box<Trie>, Box<Trie>),
}
impl Trie {
    pub fn root(&self) -> H {
        match self {
            Trie::Empty => ZERO,
            Trie::Leaf(_, _, h) | Trie::Inner(h, _, _) => *h,
        }
    }
    fn inner(l: Trie, r: Trie) -> Trie {
        Trie::Inner(sha(&[&[1], &l.root(), &r.root()]), Box::new(l), Box::new(r))
    }
    pub fn set(&mut self, k: &H, vh: &H, d: usize) {
        let me = std::mem::take(self);
        *self = match me {
            Trie::Empty => Trie::Leaf(*k, *vh, sp_leaf(k, vh)),
            Trie::Leaf(k2, ..) if k2 == *k => Trie::Leaf(*k, *vh, sp_leaf(k, vh)),
            Trie::Leaf(..) => {
                let Trie::Leaf(k2, ..) = me else { unreachable!() };
                let mut t = if bit(&k2, d) { (Trie::Empty, me) } else { (me, Trie::Empty) };
                if bit(k, d) {
                    t.1.set(k, vh, d + 1)
                } else {
                    t.0.set(k, vh, d + 1)
                }
                Trie::inner(t.0, t.1)
            }
            Trie::Inner(_, mut l, mut r) => {
                if bit(k, d) {
                    r.set(k, vh, d + 1)
                } else {
                    l.set(k, vh, d + 1)
                }
                Trie::inner(*l, *r)
            }
        }
    }
    pub fn del(&mut self, k: &H, d: usize) {
        let me = std::mem::take(self);
        *self = match me {
            Trie::Leaf(k2, ..) if k2 == *k => Trie::Empty,
            Trie::Inner(_, mut l, mut r) => {
                if bit(k, d) {
                    r.del(k, d + 1)
                } else {
                    l.del(k, d + 1)
                }
                match (*l, *r) {
                    // a lone entry has no inner node above it
                    (Trie::Empty, x @ (Trie::Leaf(..) | Trie::Empty)) => x,
                    (x @ Trie::Leaf(..), Trie::Empty) => x,
                    (l, r) => Trie::inner(l, r),
                }
            }
            other => other,
        }
    }
}

/// The sum tree's perfect subtrees, tabulated as leaves are appended.
#[derive(Clone, Default)]
pub struct SumModel {
    pub levels: Vec<Vec<SNode>>,
    pub total: u128,
}
impl SumModel {
    pub fn push(&mut self, fee: u64, data: &[u8]) {
        if self.levels.is_empty() {
            self.levels.push(vec![]);
        }
        self.total += fee as u128;
        self.levels[0].push(sum_leaf(fee, data));
        let mut l = 0;
        while self.levels[l].len() % 2 == 0 {
            let k = self.levels[l].len();
            let x = sum_join(&self.levels[l][k - 2], &self.levels[l][k - 1]);
            l += 1;
            if self.levels.len() <= l {
                self.levels.push(vec![]);
            }
            self.levels[l].push(x);
        }
    }
    pub fn len(&self) -> u64 {
        self.levels.first().map_or(0, |l| l.len() as u64)
    }
    fn range(&self, a: u64, b: u64) -> SNode {
        let n = b - a;
        if n.is_power_of_two() {
            return self.levels[n.trailing_zeros() as usize][(a / n) as usize].clone();
        }
        let k = split(n);
        sum_join(&self.range(a, a + k), &self.range(a + k, b))
    }
    pub fn root(&self) -> (u128, H) {
        match self.len() {
            0 => (0, empty()),
            n => {
                let r = self.range(0, n);
                (r.fee, r.hash)
            }
        }
    }
    /// The nodes joining the perfect subtrees of an unbalanced tree, up to the root.
    pub fn spine(&self, out: &mut Vec<SNode>) {
        let (mut a, n) = (0, self.len());
        while n > a && !(n - a).is_power_of_two() {
            out.push(self.range(a, n));
            a += split(n - a);
        }
    }
    pub fn leaves(&self) -> &[SNode] {
        &self.levels[0]
    }
}

/// The cached models are bound to the plain ones, on every operation of two histories.
pub fn selftest_incremental() {
    let (mut t, mut m) = (Trie::Empty, SMap::new());
    for i in 0..400u32 {
        let j = (i * 37) % 64;
        let k = if j % 2 == 0 { sha(&[&j.to_be_bytes()]) } else { flip(&ZERO, (j * 4) as usize) };
        if i % 3 == 2 || i > 300 {
            t.del(&k, 0);
            m.remove(&k);
        } else {
            let v = value_digest(&i.to_be_bytes());
            t.set(&k, &v, 0);
            m.insert(k, v);
        }
        assert_eq!(t.root(), sp_root(&m));
    }
    let (mut s, mut l) = (SumModel::default(), vec![]);
    for i in 0..70u64 {
        assert_eq!(s.root(), sum_root(&l));
        s.push(i * i, &i.to_be_bytes());
        l.push(sum_leaf(i * i, &i.to_be_bytes()));
    }
}
