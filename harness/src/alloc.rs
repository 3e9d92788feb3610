//! A thread-local free-list allocator: exploration allocates and frees small blocks on all cores
//! all the time, and the system allocator spends most of the time in the kernel doing so.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

const CLASSES: usize = 13; // 16 bytes .. 64 KiB
const CHUNK: usize = 1 << 20;

struct Left {
    free: [*mut u8; CLASSES],
    chunks: [(usize, usize); 256],
    len: usize,
}
// Safety: whoever takes a block out is the only one to have it.
unsafe impl Send for Left {}
/// What threads that have ended left behind: free blocks and unused parts of chunks.
static LEFT: Mutex<Left> = Mutex::new(Left { free: [std::ptr::null_mut(); CLASSES], chunks: [(0, 0); 256], len: 0 });
static ANY: [AtomicBool; CLASSES] = [const { AtomicBool::new(false) }; CLASSES];

struct Local {
    free: [*mut u8; CLASSES],
    count: [u32; CLASSES],
    at: usize,
    end: usize,
    ended: bool,
    meter: bool,
    live: i64,
    peak: i64,
}
thread_local! {
    static L: UnsafeCell<Local> =
        const { UnsafeCell::new(Local { free: [std::ptr::null_mut(); CLASSES], count: [0; CLASSES], at: 0, end: 0, ended: false, meter: false, live: 0, peak: 0 }) };
}
/// Pass the free blocks of a class on to whoever needs some.
unsafe fn give(p: &mut Local, left: &mut Left, c: usize) {
    let list = std::mem::replace(&mut p.free[c], std::ptr::null_mut());
    p.count[c] = 0;
    if !list.is_null() {
        let mut last = list;
        while !(*(last as *mut *mut u8)).is_null() {
            last = *(last as *mut *mut u8);
        }
        *(last as *mut *mut u8) = left.free[c];
        left.free[c] = list;
        ANY[c].store(true, Relaxed);
    }
}
/// To be held by a thread that does not live long: when it ends, another can have its memory.
pub struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        L.with(|p| {
            let p = unsafe { &mut *p.get() };
            let mut left = LEFT.lock().unwrap();
            for c in 0..CLASSES {
                unsafe { give(p, &mut left, c) }
            }
            let n = left.len;
            if p.at < p.end && n < left.chunks.len() {
                left.chunks[n] = (p.at, p.end);
                left.len += 1;
            }
            p.ended = true;
        })
    }
}
fn set(on: bool) -> bool {
    L.with(|p| unsafe { std::mem::replace(&mut (*p.get()).meter, on) })
}
pub struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        set(self.0);
    }
}
/// Count what `f` allocates and frees on this thread: (result, bytes kept, most bytes held meanwhile).
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    L.with(|p| unsafe {
        (*p.get()).live = 0;
        (*p.get()).peak = 0;
    });
    let g = Restore(set(true));
    let r = f();
    drop(g);
    L.with(|p| unsafe { (r, (*p.get()).live, (*p.get()).peak) })
}
/// Until the guard is dropped, nothing is counted: storages call this, for what they allocate is
/// not the tree's.
pub fn pause() -> Restore {
    Restore(set(false))
}
unsafe fn count(l: &Layout, sign: i64) {
    let _ = L.try_with(|p| {
        let p = &mut *p.get();
        if p.meter {
            p.live += sign * l.size() as i64;
            p.peak = p.peak.max(p.live);
        }
    });
}
pub struct Pool;

fn class(l: &Layout) -> Option<usize> {
    let n = l.size().max(16).next_power_of_two();
    if l.align() > 16 || n > 16 << (CLASSES - 1) {
        return None;
    }
    Some(n.trailing_zeros() as usize - 4)
}
// Safety: blocks of one class all have the class's size and 16-byte alignment; lists are per thread.
unsafe impl GlobalAlloc for Pool {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = class(&l) else {
            count(&l, 1);
            return System.alloc(l);
        };
        L.try_with(|p| {
            let p = &mut *p.get();
            if p.meter {
                p.live += l.size() as i64;
                p.peak = p.peak.max(p.live);
            }
            let n = 16usize << c;
            if p.ended {
                return System.alloc(Layout::from_size_align_unchecked(n, 16));
            }
            let mut b = p.free[c];
            if b.is_null() && ANY[c].load(Relaxed) {
                let mut left = LEFT.lock().unwrap();
                b = left.free[c];
                // a few of them, for others need some too
                let mut last = b;
                for _ in 0..(1 << 14) / n + 1 {
                    if !last.is_null() {
                        left.free[c] = *(last as *mut *mut u8);
                        if left.free[c].is_null() {
                            break;
                        }
                        last = left.free[c];
                    }
                }
                if !b.is_null() {
                    left.free[c] = *(last as *mut *mut u8);
                    *(last as *mut *mut u8) = std::ptr::null_mut();
                }
                ANY[c].store(!left.free[c].is_null(), Relaxed);
            }
            if !b.is_null() {
                p.free[c] = *(b as *mut *mut u8);
                p.count[c] = p.count[c].saturating_sub(1);
                return b;
            }
            if p.at == 0 {
                let mut left = LEFT.lock().unwrap();
                if left.len > 0 {
                    left.len -= 1;
                    (p.at, p.end) = left.chunks[left.len];
                }
            }
            if p.end - p.at < n {
                let m = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if m.is_null() {
                    return m;
                }
                p.at = m as usize;
                p.end = p.at + CHUNK;
            }
            p.at += n;
            (p.at - n) as *mut u8
        })
        .unwrap_or(std::ptr::null_mut())
    }
    unsafe fn dealloc(&self, b: *mut u8, l: Layout) {
        let Some(c) = class(&l) else {
            count(&l, -1);
            return System.dealloc(b, l);
        };
        let _ = L.try_with(|p| {
            let p = &mut *p.get();
            if p.meter {
                p.live -= l.size() as i64;
            }
            *(b as *mut *mut u8) = p.free[c];
            p.free[c] = b;
            // a thread that mostly frees what others allocate does not keep it all
            p.count[c] += 1;
            if p.count[c] == (4 * CHUNK as u32) >> (c + 4) {
                give(p, &mut LEFT.lock().unwrap(), c);
            }
        });
    }
}
