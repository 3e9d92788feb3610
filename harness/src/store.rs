//! Storages under the explorer's control: fault injection, call log, snapshots.
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;

/// The injected failure; carries the number of the call that failed.
#[derive(Clone, PartialEq, Eq)]
pub struct Fault(pub u64);
impl std::fmt::Debug for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "InjectedFault#{}#", self.0)
    }
}
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Fault {}
pub fn carries(err: &str, n: u64) -> bool {
    err.contains(&format!("InjectedFault#{}#", n))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// the failing call has no effect
    Before,
    /// a failing write takes effect and is then reported as failed
    After,
    /// this call and every later one fail, without effect
    Down,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Get,
    Contains,
    Insert,
    Remove,
}

thread_local! {
    static HOOKED: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
}
/// Run `f` with `hook` called at every storage access that this thread makes meanwhile.
/// The hook itself runs without a hook.
pub fn hooked<T>(hook: Box<dyn FnMut()>, f: impl FnOnce() -> T) -> T {
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    HOOKED.with(|x| x.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    HOOKED.with(|x| x.set(false));
    let h = HOOK.with(|h| h.borrow_mut().take());
    drop(h);
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn hook() {
    if HOOKED.with(|x| x.get()) {
        let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) else { return };
        HOOKED.with(|x| x.set(false));
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
        HOOKED.with(|x| x.set(true));
    }
}

pub struct Inner<K, V> {
    pub map: BTreeMap<K, V>,
    pub calls: u64,
    pub fail: Option<(u64, Mode)>,
    pub failed: bool,
    pub log: Option<Vec<(Op, K)>>,
    /// effective writes: (key, new value or removal)
    pub wlog: Option<Vec<(K, Option<V>)>>,
    /// incremental fingerprint of the content (only if `hasher` is set)
    pub sum: u64,
    pub hasher: Option<fn(&K, &V) -> u64>,
}
impl<K: Ord + Clone, V: Clone> Inner<K, V> {
    pub fn put(&mut self, k: &K, v: V) -> Option<V> {
        if let Some(h) = self.hasher {
            self.sum = self.sum.wrapping_add(h(k, &v));
        }
        let old = self.map.insert(k.clone(), v);
        if let (Some(h), Some(o)) = (self.hasher, &old) {
            self.sum = self.sum.wrapping_sub(h(k, o));
        }
        old
    }
    pub fn del(&mut self, k: &K) -> Option<V> {
        let old = self.map.remove(k);
        if let (Some(h), Some(o)) = (self.hasher, &old) {
            self.sum = self.sum.wrapping_sub(h(k, o));
        }
        old
    }
}

pub struct Mem<T: Mappable>(pub Rc<RefCell<Inner<T::Key, T::GetValue>>>);
impl<T: Mappable> Clone for Mem<T> {
    fn clone(&self) -> Self {
        Mem(self.0.clone())
    }
}
impl<T: Mappable> std::fmt::Debug for Mem<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Mem")
    }
}
impl<T: Mappable> Mem<T>
where
    T::Key: Ord + Clone,
    T::GetValue: Clone,
{
    pub fn new() -> Self {
        Mem(Rc::new(RefCell::new(Inner {
            map: BTreeMap::new(),
            calls: 0,
            fail: None,
            failed: false,
            log: None,
            wlog: None,
            sum: 0,
            hasher: None,
        })))
    }
    /// Keep a fingerprint of the content up to date.
    pub fn fingerprinted(h: fn(&T::Key, &T::GetValue) -> u64) -> Self {
        let s = Self::new();
        s.0.borrow_mut().hasher = Some(h);
        s
    }
    pub fn sum(&self) -> u64 {
        self.0.borrow().sum
    }
    pub fn put(&self, k: &T::Key, v: T::GetValue) {
        self.0.borrow_mut().put(k, v);
    }
    pub fn lose(&self, k: &T::Key) -> Option<T::GetValue> {
        self.0.borrow_mut().del(k)
    }
    pub fn peek(&self, k: &T::Key) -> Option<T::GetValue> {
        self.0.borrow().map.get(k).cloned()
    }
    pub fn has(&self, k: &T::Key) -> bool {
        self.0.borrow().map.contains_key(k)
    }
    pub fn from_map(m: BTreeMap<T::Key, T::GetValue>) -> Self {
        let s = Self::new();
        s.0.borrow_mut().map = m;
        s
    }
    pub fn snapshot(&self) -> BTreeMap<T::Key, T::GetValue> {
        self.0.borrow().map.clone()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().map.len()
    }
    pub fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
    /// Arm: the n-th call from now (1-based) fails.
    pub fn arm(&self, n: u64, mode: Mode) {
        let mut i = self.0.borrow_mut();
        i.calls = 0;
        i.failed = false;
        i.fail = Some((n, mode));
    }
    pub fn disarm(&self) -> bool {
        let mut i = self.0.borrow_mut();
        i.fail = None;
        i.calls = 0;
        std::mem::take(&mut i.failed)
    }
    pub fn reset_calls(&self) {
        self.0.borrow_mut().calls = 0;
    }
    pub fn start_log(&self) {
        self.0.borrow_mut().log = Some(vec![]);
    }
    pub fn take_log(&self) -> Vec<(Op, T::Key)> {
        self.0.borrow_mut().log.take().unwrap_or_default()
    }
    pub fn start_writes(&self) {
        self.0.borrow_mut().wlog = Some(vec![]);
    }
    pub fn take_writes(&self) -> Vec<(T::Key, Option<T::GetValue>)> {
        self.0.borrow_mut().wlog.take().unwrap_or_default()
    }
    /// An unrelated copy with the same content and then these writes.
    pub fn fork_with<'a>(&self, ws: impl Iterator<Item = &'a (T::Key, Option<T::GetValue>)>) -> Self
    where
        T::Key: 'a,
        T::GetValue: 'a,
    {
        let s = self.fork();
        for (k, v) in ws {
            match v {
                Some(v) => s.put(k, v.clone()),
                None => drop(s.lose(k)),
            }
        }
        s
    }
    /// An unrelated copy with the same content.
    pub fn fork(&self) -> Self {
        Self::from_map(self.snapshot())
    }
    fn enter(&self, op: Op, k: &T::Key) -> Result<(), (Fault, bool)> {
        hook();
        let mut i = self.0.borrow_mut();
        i.calls += 1;
        let c = i.calls;
        if let Some(l) = i.log.as_mut() {
            l.push((op, k.clone()));
        }
        if let Some((n, mode)) = i.fail {
            if c == n || (mode == Mode::Down && c > n) {
                i.failed = true;
                return Err((Fault(c), mode == Mode::After));
            }
        }
        Ok(())
    }
}
impl<T: Mappable> StorageInspect<T> for Mem<T>
where
    T::Key: Ord + Clone,
    T::GetValue: Clone,
{
    type Error = Fault;
    fn get(&self, key: &T::Key) -> Result<Option<Cow<'_, T::GetValue>>, Fault> {
        let _m = crate::alloc::pause();
        self.enter(Op::Get, key).map_err(|e| e.0)?;
        Ok(self.0.borrow().map.get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &T::Key) -> Result<bool, Fault> {
        let _m = crate::alloc::pause();
        self.enter(Op::Contains, key).map_err(|e| e.0)?;
        Ok(self.0.borrow().map.contains_key(key))
    }
}
impl<T> StorageMutate<T> for Mem<T>
where
    T: Mappable,
    T::Key: Ord + Clone,
    T::SetValue: Clone + Into<T::GetValue>,
    T::GetValue: Clone,
{
    fn insert(&mut self, key: &T::Key, value: &T::SetValue) -> Result<Option<T::GetValue>, Fault> {
        let _m = crate::alloc::pause();
        let r = self.enter(Op::Insert, key);
        match r {
            Err((e, false)) => Err(e),
            Err((e, true)) => {
                self.0.borrow_mut().put(key, value.clone().into());
                Err(e)
            }
            Ok(()) => {
                let mut i = self.0.borrow_mut();
                let v: T::GetValue = value.clone().into();
                if let Some(l) = i.wlog.as_mut() {
                    l.push((key.clone(), Some(v.clone())));
                }
                Ok(i.put(key, v))
            }
        }
    }
    fn remove(&mut self, key: &T::Key) -> Result<Option<T::GetValue>, Fault> {
        let _m = crate::alloc::pause();
        let r = self.enter(Op::Remove, key);
        match r {
            Err((e, false)) => Err(e),
            Err((e, true)) => {
                self.0.borrow_mut().del(key);
                Err(e)
            }
            Ok(()) => {
                let mut i = self.0.borrow_mut();
                if let Some(l) = i.wlog.as_mut() {
                    l.push((key.clone(), None));
                }
                Ok(i.del(key))
            }
        }
    }
}

/// A plain map that lends its values, as a user's own storage may.
pub struct Lend<T: Mappable> {
    pub map: BTreeMap<T::Key, T::GetValue>,
}
impl<T: Mappable> Lend<T> {
    pub fn new() -> Self {
        Lend { map: BTreeMap::new() }
    }
}
impl<T: Mappable> StorageInspect<T> for Lend<T>
where
    T::Key: Ord,
{
    type Error = Fault;
    fn get(&self, key: &T::Key) -> Result<Option<Cow<'_, T::GetValue>>, Fault> {
        hook();
        Ok(self.map.get(key).map(Cow::Borrowed))
    }
    fn contains_key(&self, key: &T::Key) -> Result<bool, Fault> {
        hook();
        Ok(self.map.contains_key(key))
    }
}
impl<T> StorageMutate<T> for Lend<T>
where
    T: Mappable,
    T::Key: Ord + Clone,
    T::SetValue: Clone + Into<T::GetValue>,
{
    fn insert(&mut self, key: &T::Key, value: &T::SetValue) -> Result<Option<T::GetValue>, Fault> {
        hook();
        Ok(self.map.insert(key.clone(), value.clone().into()))
    }
    fn remove(&mut self, key: &T::Key) -> Result<Option<T::GetValue>, Fault> {
        hook();
        Ok(self.map.remove(key))
    }
}

#[derive(Debug)]
pub struct BTab;
impl Mappable for BTab {
    type Key = u64;
    type SetValue = fuel_merkle::binary::Primitive;
    type GetValue = fuel_merkle::binary::Primitive;
}
#[derive(Debug)]
pub struct STab;
impl Mappable for STab {
    type Key = [u8; 32];
    type SetValue = fuel_merkle::sparse::Primitive;
    type GetValue = fuel_merkle::sparse::Primitive;
}
/// Table whose value type is found by inference (sum::Node has no public name).
pub struct NTab<N>(PhantomData<N>);
impl<N: Clone> Mappable for NTab<N> {
    type Key = [u8; 32];
    type SetValue = N;
    type GetValue = N;
}

/// A binary store answering for the perfect subtrees of `count` leaves without holding them
/// (digest = f(key)), plus an overlay for what is written.
#[derive(Clone, Debug)]
pub struct Virt {
    pub count: u64,
    pub overlay: Rc<RefCell<BTreeMap<u64, (u64, [u8; 32])>>>,
    /// hold only the peaks of `count`, not the other perfect subtrees
    pub only_peaks: bool,
    pub calls: Rc<std::cell::Cell<u64>>,
    /// the call (counted by `calls`) that is to fail
    pub fail: Rc<std::cell::Cell<Option<(u64, Mode)>>>,
    pub failed: Rc<std::cell::Cell<bool>>,
    /// entries that have been lost
    pub lost: Rc<RefCell<std::collections::BTreeSet<u64>>>,
    /// keys asked for
    pub asked: Rc<RefCell<std::collections::BTreeSet<u64>>>,
}
pub fn virt_digest(key: u64) -> [u8; 32] {
    // any injective function will do; not a hash of anything the tree computes
    let mut h = [0x5au8; 32];
    h[..8].copy_from_slice(&key.to_le_bytes());
    h[12..20].copy_from_slice(&key.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
    h
}
impl Virt {
    pub fn new(count: u64) -> Self {
        Virt {
            count,
            overlay: Default::default(),
            only_peaks: false,
            calls: Default::default(),
            fail: Default::default(),
            failed: Default::default(),
            lost: Default::default(),
            asked: Default::default(),
        }
    }
    pub fn only_peaks(count: u64) -> Self {
        Virt { only_peaks: true, ..Virt::new(count) }
    }
    pub fn arm(&self, n: u64, mode: Mode) {
        self.calls.set(0);
        self.failed.set(false);
        self.fail.set(Some((n, mode)));
    }
    pub fn disarm(&self) -> bool {
        self.fail.set(None);
        self.failed.get()
    }
    fn enter(&self, key: u64) -> Result<(), (Fault, bool)> {
        let c = self.calls.get() + 1;
        self.calls.set(c);
        self.asked.borrow_mut().insert(key);
        if let Some((n, mode)) = self.fail.get() {
            if c == n || (mode == Mode::Down && c > n) {
                self.failed.set(true);
                return Err((Fault(c), mode == Mode::After));
            }
        }
        Ok(())
    }
    /// is `key` the in-order index of a perfect subtree within the first `count` leaves?
    pub fn holds(&self, key: u64) -> bool {
        let h = (!key).trailing_zeros();
        if h >= 64 {
            return false;
        }
        let size = 1u128 << h;
        let a = (key as u128 + 1 - size) / 2; // key = 2a + size - 1
        if self.only_peaks {
            // a peak: within the count, and the parent subtree (aligned, twice the size) is not
            return a + size <= self.count as u128 && (a & !(2 * size - 1)) + 2 * size > self.count as u128;
        }
        a + size <= self.count as u128
    }
    fn lookup(&self, key: u64) -> Option<(u64, [u8; 32])> {
        if self.lost.borrow().contains(&key) {
            return None;
        }
        if let Some(v) = self.overlay.borrow().get(&key) {
            return Some(*v);
        }
        if self.holds(key) {
            Some((key, virt_digest(key)))
        } else {
            None
        }
    }
}
impl StorageInspect<BTab> for Virt {
    type Error = Fault;
    fn get(&self, key: &u64) -> Result<Option<Cow<'_, (u64, [u8; 32])>>, Fault> {
        let _m = crate::alloc::pause();
        self.enter(*key).map_err(|e| e.0)?;
        Ok(self.lookup(*key).map(Cow::Owned))
    }
    fn contains_key(&self, key: &u64) -> Result<bool, Fault> {
        let _m = crate::alloc::pause();
        self.enter(*key).map_err(|e| e.0)?;
        Ok(self.lookup(*key).is_some())
    }
}
impl StorageMutate<BTab> for Virt {
    fn insert(&mut self, key: &u64, value: &(u64, [u8; 32])) -> Result<Option<(u64, [u8; 32])>, Fault> {
        let _m = crate::alloc::pause();
        let r = self.enter(*key);
        if let Err((e, false)) = r {
            return Err(e);
        }
        let old = self.lookup(*key);
        self.overlay.borrow_mut().insert(*key, *value);
        r.map_err(|e| e.0)?;
        Ok(old)
    }
    fn remove(&mut self, key: &u64) -> Result<Option<(u64, [u8; 32])>, Fault> {
        let _m = crate::alloc::pause();
        self.enter(*key).map_err(|e| e.0)?;
        let old = self.lookup(*key);
        self.overlay.borrow_mut().remove(key);
        Ok(old)
    }
}
