//! Process-level seams: hash seeds, standard output and the heap, all owned by the simulator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU8, Ordering};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

thread_local! {
    static KEY: Cell<u64> = const { Cell::new(0) };
    static KEY_CALLS: Cell<u64> = const { Cell::new(0) };
    static CAP_ON: Cell<bool> = const { Cell::new(false) };
    static CAP: RefCell<Cap> = const { RefCell::new(Cap { data: Vec::new(), plan: Vec::new(), at: 0, short: 0, eintr: 0, failed: 0 }) };
    /// Heap operations still to pass before a switch is due.
    static LEFT: Cell<u32> = const { Cell::new(u32::MAX) };
    static ALLOC_ON: Cell<bool> = const { Cell::new(false) };
    /// Heap use of this thread: bytes and blocks held (negative if it freed another thread's), bytes asked for so far.
    static HELD: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Heap bytes and blocks this thread holds.
pub fn held() -> (i64, i64) {
    (HELD.with(|h| h.get()), BLOCKS.with(|b| b.get()))
}

/// Heap bytes this thread asked for so far.
pub fn asked() -> u64 {
    ASKED.with(|h| h.get())
}

fn account(plus: usize, minus: usize, blocks: i64) {
    let _ = HELD.try_with(|h| h.set(h.get() + plus as i64 - minus as i64));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = ASKED.try_with(|a| a.set(a.get().wrapping_add(plus as u64)));
}

/// Steps `f` takes in library code: basic blocks entered, and block copies and comparisons in units of 16 bytes.
pub fn count_steps<R>(f: impl FnOnce() -> R) -> (R, u64) {
    #[cfg(sim_cov)]
    unsafe {
        sim_cov_count(1);
        let r = f();
        let n = sim_cov_count(0);
        (r, n)
    }
    #[cfg(not(sim_cov))]
    {
        let _ = f;
        panic!("steps are counted in the instrumented build only (src/seams.rs)");
    }
}

pub struct Cap {
    pub data: Vec<u8>,
    /// One entry per write call: 0 = whole, 1 = EINTR, 255 = EIO, other n = at most n-1 bytes.
    pub plan: Vec<u8>,
    pub at: usize,
    pub short: u64,
    pub eintr: u64,
    pub failed: u64,
}

/// From here on every `RandomState` of this thread is keyed from `key`.
/// Must run before the first hash map of the thread.
pub fn set_hash_key(key: u64) {
    KEY.with(|k| k.set(key | 1));
}

pub fn key_calls() -> u64 {
    KEY_CALLS.with(|k| k.get())
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let k = KEY.try_with(|k| k.get()).unwrap_or(0);
    if k == 0 {
        return syscall(318, buf, len, flags as u64) as isize;
    }
    KEY_CALLS.with(|c| c.set(c.get() + 1));
    let mut x = k;
    let mut i = 0;
    while i < len {
        x = crate::tape::mix(x);
        for b in x.to_le_bytes() {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const std::ffi::c_void, len: usize) -> isize {
    let buf = buf as *const u8;
    if fd == 1 && CAP_ON.try_with(|c| c.get()).unwrap_or(false) {
        return CAP.with(|c| {
            let mut c = c.borrow_mut();
            let step = if c.plan.is_empty() {
                0
            } else {
                c.plan[c.at % c.plan.len()]
            };
            c.at += 1;
            // never two interruptions in a row beyond the plan's own pattern: progress is guaranteed
            // because plans always contain a non-interrupting step
            let n = match step {
                0 => len,
                1 => {
                    c.eintr += 1;
                    *__errno_location() = 4;
                    return -1;
                }
                255 => {
                    c.failed += 1;
                    *__errno_location() = 5;
                    return -1;
                }
                n => {
                    if ((n - 1) as usize) < len {
                        c.short += 1;
                    }
                    ((n - 1) as usize).min(len)
                }
            };
            let s = std::slice::from_raw_parts(buf, n);
            c.data.extend_from_slice(s);
            n as isize
        });
    }
    let r = syscall(1, fd as i64, buf, len);
    r as isize
}

/// Capture this thread's writes to standard output while `f` runs.
pub fn capture<R>(plan: Vec<u8>, f: impl FnOnce() -> R) -> (R, Cap) {
    CAP.with(|c| {
        *c.borrow_mut() = Cap {
            data: vec![],
            plan,
            at: 0,
            short: 0,
            eintr: 0,
            failed: 0,
        }
    });
    CAP_ON.with(|c| c.set(true));
    let r = f();
    CAP_ON.with(|c| c.set(false));
    let cap = CAP.with(|c| {
        std::mem::replace(
            &mut *c.borrow_mut(),
            Cap {
                data: vec![],
                plan: vec![],
                at: 0,
                short: 0,
                eintr: 0,
                failed: 0,
            },
        )
    });
    (r, cap)
}

pub struct YieldingAlloc;

/// Which scheduling points are in force (set once per run, before its clients start).
pub static POINTS: AtomicU8 = AtomicU8::new(0);
pub const AT_HEAP: u8 = 1;
pub const AT_BLOCK: u8 = 2;
pub const AT_STATIC: u8 = 4;

#[derive(Clone, Copy, PartialEq)]
pub enum Point {
    Heap,
    Block,
    Static,
}

#[cfg(sim_cov)]
extern "C" {
    fn sim_cov_on(b: i32) -> i32;
    fn sim_cov_left(block: u32, stat: u32);
    fn sim_cov_mask(m: i32);
    fn sim_cov_image(a: usize, b: usize);
    fn sim_cov_count(b: i32) -> u64;
}

/// Switch this thread's scheduling points inside library code on or off; says how it was.
pub fn points_on(b: bool) -> bool {
    #[cfg(sim_cov)]
    unsafe {
        sim_cov_on(b as i32)
    };
    ALLOC_ON.try_with(|a| a.replace(b)).unwrap_or(false)
}

/// How many points of each kind this thread passes before it yields.
pub fn points_left(heap: u32, block: u32, stat: u32) {
    LEFT.with(|l| l.set(heap));
    let _ = (block, stat);
    #[cfg(sim_cov)]
    unsafe {
        sim_cov_left(block, stat)
    };
}

pub fn points_of_run(mask: u8) {
    POINTS.store(mask, Ordering::Relaxed);
    #[cfg(sim_cov)]
    unsafe {
        sim_cov_mask(mask as i32)
    };
}

/// A scheduling point of this thread is due.
fn due(at: Point) {
    points_on(false);
    if !std::thread::panicking() {
        crate::sched::point_yield(at);
    }
    points_on(true);
}

#[cfg(sim_cov)]
#[no_mangle]
extern "C" fn sim_point(at_static: i32) {
    due(if at_static == 1 { Point::Static } else { Point::Block });
}

#[inline]
fn tick() {
    let _ = ALLOC_ON.try_with(|on| {
        if on.get() {
            let hit = LEFT.with(|l| {
                // u32::MAX: never
                let v = l.get();
                l.set(if v == u32::MAX { v } else { v.saturating_sub(1) });
                v == 0
            });
            if hit {
                due(Point::Heap);
            }
        }
    });
}

unsafe impl GlobalAlloc for YieldingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        account(l.size(), 0, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        account(0, l.size(), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        account(n, l.size(), 0);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        account(l.size(), 0, 1);
        System.alloc_zeroed(l)
    }
}

/// Find the program image's writable memory: what all threads share without asking the heap.
pub fn find_image() {
    #[cfg(sim_cov)]
    {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
        let (mut lo, mut hi) = (usize::MAX, 0);
        for l in maps.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let Some((a, b)) = w[0].split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            // the file's own writable part, and the zeroed part right behind it
            if w[1].starts_with("rw") && (w.len() > 5 && w[5] == exe || w.len() == 5 && a == hi) {
                lo = lo.min(a);
                hi = hi.max(b);
            }
        }
        if hi == 0 {
            panic!("program image not found (src/seams.rs)");
        }
        unsafe { sim_cov_image(lo, hi) };
    }
}
