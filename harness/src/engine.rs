//! The explorer: finite spaces of cases enumerated completely, in parallel, on the real code.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
type FpSet = HashSet<u64, BuildHasherDefault<IdHasher>>;
const SHARDS: usize = 256;
const FP_CAP: u64 = 60_000_000;

pub fn fp<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Shared counters of a run. Every number in the evidence comes from here.
pub struct Acc {
    fps: Vec<Mutex<FpSet>>,
    pub distinct: AtomicU64,
    pub trans: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub oracle: AtomicU64,
    pub notes: Mutex<Vec<(String, u64)>>,
    beats: Vec<AtomicU64>,
    pub stop_at: Mutex<Option<Instant>>,
    pub out_of_time: AtomicBool,
}
thread_local! {
    static WID: RefCell<usize> = RefCell::new(0);
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static LOCAL: RefCell<[u64; 4]> = RefCell::new([0; 4]);
}
impl Acc {
    pub fn new() -> Self {
        Acc {
            fps: (0..SHARDS).map(|_| Mutex::new(FpSet::default())).collect(),
            distinct: AtomicU64::new(0),
            trans: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            oracle: AtomicU64::new(0),
            notes: Mutex::new(vec![]),
            beats: (0..256).map(|_| AtomicU64::new(0)).collect(),
            stop_at: Mutex::new(None),
            out_of_time: AtomicBool::new(false),
        }
    }
    /// Record a visited state (or a distinct non-trivial fault case).
    pub fn state<T: Hash>(&self, t: &T) -> bool {
        let f = fp(t);
        if self.distinct.load(Relaxed) >= FP_CAP {
            return false;
        }
        let new = self.fps[(f % SHARDS as u64) as usize].lock().unwrap().insert(f / SHARDS as u64);
        if new {
            self.distinct.fetch_add(1, Relaxed);
        }
        new
    }
    pub fn step(&self, n: u64) {
        LOCAL.with(|l| l.borrow_mut()[0] += n);
    }
    pub fn trace(&self, n: u64) {
        LOCAL.with(|l| l.borrow_mut()[1] += n);
    }
    pub fn eval(&self, n: u64) {
        LOCAL.with(|l| l.borrow_mut()[2] += n);
    }
    /// comparisons made against the model
    pub fn cmp(&self, n: u64) {
        LOCAL.with(|l| l.borrow_mut()[3] += n);
    }
    pub fn flush(&self) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            self.trans.fetch_add(l[0], Relaxed);
            self.traces.fetch_add(l[1], Relaxed);
            self.evals.fetch_add(l[2], Relaxed);
            self.oracle.fetch_add(l[3], Relaxed);
            *l = [0; 4];
        })
    }
    pub fn note(&self, k: &str, n: u64) {
        let mut v = self.notes.lock().unwrap();
        for e in v.iter_mut() {
            if e.0 == k {
                e.1 += n;
                return;
            }
        }
        v.push((k.to_string(), n));
    }
    pub fn beat(&self) {
        WID.with(|w| self.beats[*w.borrow()].fetch_add(1, Relaxed));
    }
    pub fn timed_out(&self) -> bool {
        if self.out_of_time.load(Relaxed) {
            return true;
        }
        if let Some(t) = *self.stop_at.lock().unwrap() {
            if Instant::now() > t {
                self.out_of_time.store(true, SeqCst);
                return true;
            }
        }
        false
    }
}

pub struct Space<'a> {
    pub name: String,
    pub total: u64,
    pub run: Box<dyn Fn(u64, &Acc) -> Res + Sync + 'a>,
    pub desc: Box<dyn Fn(u64) -> String + Sync + 'a>,
    /// indices are independent; how many to take at once
    pub chunk: u64,
}
impl<'a> Space<'a> {
    pub fn new(
        name: impl Into<String>,
        total: u64,
        run: impl Fn(u64, &Acc) -> Res + Sync + 'a,
        desc: impl Fn(u64) -> String + Sync + 'a,
    ) -> Self {
        let chunk = (total / 4096).clamp(1, 256);
        Space { name: name.into(), total, run: Box::new(run), desc: Box::new(desc), chunk }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub index: u64,
    pub what: String,
    pub case: String,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

pub struct SpaceReport {
    pub name: String,
    pub total: u64,
    pub done: u64,
    pub wall: f64,
    pub samples: Vec<String>,
}

pub fn run_one(s: &Space, i: u64, acc: &Acc) -> Option<Violation> {
    let r = match guard(|| (s.run)(i, acc)) {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(p) => format!("panic: {p}"),
    };
    let case = guard(|| (s.desc)(i)).unwrap_or_else(|e| e);
    Some(Violation { space: s.name.clone(), index: i, what: r, case })
}

/// Explore one space completely (or until the deadline). Err = the violation of least index found.
/// Start a thread; a machine that refuses one for the moment is asked again, and one that goes on
/// refusing gives no answer (exit 2), which is no violation.
pub fn spawn_in<'s, 'e, T: Send + 's>(
    sc: &'s std::thread::Scope<'s, 'e>,
    stack_mb: usize,
    f: impl FnOnce() -> T + Send + 's,
) -> std::thread::ScopedJoinHandle<'s, T> {
    let f = std::sync::Arc::new(Mutex::new(Some(f)));
    for n in 0..600 {
        let f = f.clone();
        match std::thread::Builder::new().stack_size(stack_mb << 20).spawn_scoped(sc, move || {
            let _leave = crate::alloc::Leave;
            let f = f.lock().unwrap().take().unwrap();
            f()
        }) {
            Ok(h) => return h,
            Err(e) if n == 599 => eprintln!("no thread to run on: {e}"),
            Err(_) => std::thread::sleep(Duration::from_millis(100)),
        }
    }
    std::process::exit(2)
}
pub fn explore(s: &Space, acc: &Acc, threads: usize, hang: Duration) -> Result<SpaceReport, Violation> {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let bad: Mutex<Option<Violation>> = Mutex::new(None);
    let min_bad = AtomicU64::new(u64::MAX);
    let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let live = AtomicU64::new(threads as u64);
    let hung: Mutex<Option<Violation>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (next, done, bad, min_bad, cur, live) = (&next, &done, &bad, &min_bad, &cur, &live);
            spawn_in(sc, 64, move || {
                WID.with(|x| *x.borrow_mut() = w);
                loop {
                    let a = next.fetch_add(s.chunk, SeqCst);
                    if a >= s.total || a > min_bad.load(SeqCst) || acc.timed_out() {
                        break;
                    }
                    for i in a..(a + s.chunk).min(s.total) {
                        cur[w].store(i, SeqCst);
                        acc.beat();
                        if let Some(v) = run_one(s, i, acc) {
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |o| o.index > i) {
                                *b = Some(v);
                                min_bad.fetch_min(i, SeqCst);
                            }
                            break;
                        }
                        done.fetch_add(1, Relaxed);
                    }
                    acc.flush();
                }
                acc.flush();
                cur[w].store(u64::MAX, SeqCst);
                live.fetch_sub(1, SeqCst);
            });
        }
        // watchdog
        let mut last: Vec<(u64, Instant)> = (0..threads).map(|w| (acc.beats[w].load(Relaxed), Instant::now())).collect();
        let mut nap = 1;
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(50);
            for w in 0..threads {
                let b = acc.beats[w].load(Relaxed);
                if b != last[w].0 {
                    last[w] = (b, Instant::now());
                } else if cur[w].load(SeqCst) != u64::MAX && last[w].1.elapsed() > hang {
                    let i = cur[w].load(SeqCst);
                    let v = Violation {
                        space: s.name.clone(),
                        index: i,
                        what: format!("no answer after {} s: the operation does not terminate", hang.as_secs()),
                        case: guard(|| (s.desc)(i)).unwrap_or_else(|e| e),
                    };
                    *hung.lock().unwrap() = Some(v.clone());
                    // the stuck thread cannot be joined: report from here
                    crate::report_violation_and_exit(&v);
                }
            }
        }
    });
    if let Some(v) = bad.into_inner().unwrap() {
        return Err(v);
    }
    let total = s.total;
    let mut samples = vec![];
    if total > 0 {
        let mut ix = vec![0, total / 3, total - 1];
        ix.dedup();
        for i in ix {
            samples.push(format!("[{} #{}] {}", s.name, i, guard(|| (s.desc)(i)).unwrap_or_else(|e| e)));
        }
    }
    Ok(SpaceReport { name: s.name.clone(), total, done: done.load(SeqCst), wall: t0.elapsed().as_secs_f64(), samples })
}

/// Digits of `i` in base `b`, most significant first, `len` of them.
pub fn digits(mut i: u64, b: u64, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for k in (0..len).rev() {
        v[k] = (i % b) as usize;
        i /= b;
    }
    v
}
/// In a full-length enumeration in lexicographic order, position p of sequence `d` is the first
/// visit of the prefix d[..=p] iff all later digits are 0.
pub fn first_visit(d: &[usize]) -> usize {
    let mut p = d.len();
    while p > 0 && d[p - 1] == 0 {
        p -= 1;
    }
    p.saturating_sub(1)
}
pub fn nth_perm(mut i: u64, n: usize) -> Vec<usize> {
    let mut items: Vec<usize> = (0..n).collect();
    let mut f: u64 = (1..=n as u64).product();
    let mut v = vec![];
    for k in (1..=n as u64).rev() {
        f /= k;
        let j = (i / f) as usize;
        i %= f;
        v.push(items.remove(j));
    }
    v
}
pub fn factorial(n: usize) -> u64 {
    (1..=n as u64).product()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
