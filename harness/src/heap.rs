//! A global allocator that counts the live and peak bytes of each thread, and
//! that can disturb the schedule of the threads at their allocations.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let limit = LIMIT.load(Relaxed);
            if limit > 0 && v > limit {
                stuck();
            }
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Bytes allocated and not freed by this thread.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

/// The highest live count since the last reset.
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}

pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}

/// A thread that holds more than this waits for the watchdog.
static LIMIT: AtomicI64 = AtomicI64::new(0);
static OVER: AtomicU32 = AtomicU32::new(0);

pub fn limit(n: i64) {
    LIMIT.store(n, Relaxed);
}

thread_local! {
    static WORKER: Cell<u32> = const { Cell::new(0) };
}

/// The number of this worker thread.
pub fn worker(t: usize) {
    WORKER.with(|w| w.set(t as u32 + 1));
}

/// The worker thread that holds too much memory.
pub fn over() -> Option<usize> {
    match OVER.load(Relaxed) {
        0 => None,
        n => Some(n as usize - 1),
    }
}

#[cold]
fn stuck() {
    let w = WORKER.try_with(Cell::get).unwrap_or(0);
    if w > 0 {
        OVER.store(w, Relaxed);
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
}

// ---- schedule disturbance ----

use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};
use std::time::Duration;

const MAX: usize = 512;
static MODE: AtomicU8 = AtomicU8::new(0);
static EPOCH: AtomicU32 = AtomicU32::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU32 = AtomicU32::new(0);
static LAST: AtomicU32 = AtomicU32::new(u32::MAX);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
/// The priority of each live thread (0: none) and its progress.
static PRIO: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static BEAT: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];

struct Slot {
    epoch: Cell<u32>,
    id: Cell<u32>,
    rng: Cell<u64>,
}

impl Drop for Slot {
    fn drop(&mut self) {
        if self.epoch.get() == EPOCH.load(Relaxed) {
            if let Some(p) = PRIO.get(self.id.get() as usize) {
                p.store(0, Relaxed);
            }
        }
    }
}

thread_local! {
    static SLOT: Slot = const { Slot { epoch: Cell::new(0), id: Cell::new(0), rng: Cell::new(0) } };
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// What the disturbed part of the run looked like.
pub struct Seen {
    /// Scheduling points passed, and changes of the running thread.
    pub points: u64,
    pub switches: u64,
    pub threads: u64,
    /// Identifies the order in which the threads ran.
    pub hash: u64,
}

/// Disturb the threads at their allocations while `f` runs: 0 not at all, 1 by
/// yielding, 2 by sleeping, 3 by running the threads by random, changing
/// priorities.
pub fn disturb<T>(mode: u8, seed: u64, f: impl FnOnce() -> T) -> (T, Seen) {
    EPOCH.fetch_add(1, Relaxed);
    NEXT.store(0, Relaxed);
    LAST.store(u32::MAX, Relaxed);
    SWITCHES.store(0, Relaxed);
    POINTS.store(0, Relaxed);
    HASH.store(0, Relaxed);
    SEED.store(seed, Relaxed);
    for p in &PRIO {
        p.store(0, Relaxed);
    }
    MODE.store(mode + 1, Relaxed);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            MODE.store(0, Relaxed);
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    let seen = Seen {
        points: POINTS.load(Relaxed),
        switches: SWITCHES.load(Relaxed),
        threads: u64::from(NEXT.load(Relaxed)),
        hash: HASH.load(Relaxed),
    };
    (r, seen)
}

#[inline]
fn point() {
    let m = MODE.load(Relaxed);
    if m != 0 {
        let _ = SLOT.try_with(|s| disturbed(m - 1, s));
    }
}

fn disturbed(mode: u8, s: &Slot) {
    let epoch = EPOCH.load(Relaxed);
    let fresh = s.epoch.get() != epoch;
    if fresh {
        s.epoch.set(epoch);
        let id = NEXT.fetch_add(1, Relaxed);
        s.id.set(id);
        s.rng.set(mix(SEED.load(Relaxed) ^ u64::from(id)));
        if let Some(p) = PRIO.get(id as usize) {
            p.store(1 + (s.rng.get() >> 40) as u32, Relaxed);
        }
    }
    let id = s.id.get() as usize;
    if id >= MAX {
        return;
    }
    let r = mix(s.rng.get());
    s.rng.set(r);
    POINTS.fetch_add(1, Relaxed);
    BEAT[id].fetch_add(1, Relaxed);
    if LAST.swap(id as u32, Relaxed) != id as u32 {
        SWITCHES.fetch_add(1, Relaxed);
        // Only an identification, so lost updates don't matter.
        let n = BEAT[id].load(Relaxed);
        HASH.store(
            mix(HASH.load(Relaxed) ^ (id as u64) << 32 ^ u64::from(n)),
            Relaxed,
        );
    }
    match mode {
        1 => {
            if r % 7 == 0 {
                std::thread::yield_now();
            }
        }
        2 => {
            if fresh || r % 97 == 0 {
                std::thread::sleep(Duration::from_micros(1 + (r >> 20) % 120));
            }
        }
        3 => {
            if fresh && id > 0 {
                // Let the other threads start.
                std::thread::sleep(Duration::from_micros(100));
            }
            if r % 401 == 0 {
                PRIO[id].store(1 + (r >> 40) as u32, Relaxed);
            }
            let mine = PRIO[id].load(Relaxed);
            let n = (NEXT.load(Relaxed) as usize).min(MAX);
            // Wait while a thread of higher priority makes progress.
            for _ in 0..200 {
                let Some(h) = (0..n).find(|i| *i != id && PRIO[*i].load(Relaxed) > mine) else {
                    break;
                };
                let b = BEAT[h].load(Relaxed);
                let mut moved = false;
                for _ in 0..12 {
                    std::thread::yield_now();
                    if BEAT[h].load(Relaxed) != b {
                        moved = true;
                        break;
                    }
                }
                if !moved {
                    break;
                }
            }
        }
        _ => {}
    }
}
