//! Baton scheduler: real threads, exactly one of which runs at any time. Who runs next and for how long
//! (in VM calls, heap operations, basic blocks and accesses to static memory) is drawn from the tape.
use crate::seams::{points_left, points_on, Point, AT_BLOCK, AT_HEAP, AT_STATIC, POINTS};
use crate::tape::Src;
use std::cell::Cell;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// Longest way between two switches, by kind of point.
#[derive(Clone, Copy)]
pub struct Gaps {
    pub heap: u64,
    pub block: u64,
    pub stat: u64,
    /// After this many switches at blocks and heap operations, switches happen at VM calls and static
    /// memory only.
    pub budget: u64,
}

pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
    src: Src,
    gaps: Gaps,
}

pub struct St {
    cur: usize,
    alive: Vec<bool>,
    /// Waiting for something outside the simulator, such as a real lock.
    blocked: Vec<bool>,
    tid: Vec<i32>,
    pub stats: Stats,
    beat: u64,
    deadlock: bool,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub trace: Vec<u8>,
    pub switches: u64,
    pub heap: u64,
    pub block: u64,
    pub stat: u64,
    pub call: u64,
    /// Times a client waited for a real lock.
    pub waits: u64,
}

extern "C" {
    fn gettid() -> i32;
}

thread_local! {
    static ME: Cell<(usize, *const Sched)> = const { Cell::new((0, std::ptr::null())) };
}

const NOBODY: usize = usize::MAX;

impl Sched {
    pub fn new(n: usize, gaps: Gaps, src: Src) -> Arc<Sched> {
        Arc::new(Sched {
            st: Mutex::new(St {
                cur: NOBODY,
                alive: vec![true; n],
                blocked: vec![false; n],
                tid: vec![0; n],
                stats: Stats::default(),
                beat: 0,
                deadlock: false,
            }),
            cv: Condvar::new(),
            src,
            gaps,
        })
    }

    fn choose(&self, st: &mut St) {
        let live: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i] && !st.blocked[*i]).collect();
        if live.is_empty() {
            st.cur = NOBODY;
            return;
        }
        let k = self.src.us(live.len());
        let next = live[k];
        if next != st.cur {
            st.stats.switches += 1;
        }
        if st.stats.trace.len() < 100_000 {
            st.stats.trace.push(next as u8);
        }
        st.cur = next;
        st.beat += 1;
    }

    fn wait(&self, me: usize, mut st: std::sync::MutexGuard<'_, St>) {
        while st.cur != me {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        let spent = st.stats.heap + st.stats.block >= self.gaps.budget;
        drop(st);
        let on = POINTS.load(Ordering::Relaxed);
        let draw = |bit: u8, gap: u64| -> u32 {
            if on & bit == 0 || spent && bit != AT_STATIC {
                u32::MAX
            } else {
                self.src.below(gap) as u32
            }
        };
        points_left(draw(AT_HEAP, self.gaps.heap), draw(AT_BLOCK, self.gaps.block), draw(AT_STATIC, self.gaps.stat));
    }

    fn yield_now(&self, me: usize, at: Option<Point>) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        match at {
            None => st.stats.call += 1,
            Some(Point::Heap) => st.stats.heap += 1,
            Some(Point::Block) => st.stats.block += 1,
            Some(Point::Static) => st.stats.stat += 1,
        }
        self.hand_over(me, &mut st);
        self.cv.notify_all();
        self.wait(me, st);
    }

    /// The client at a scheduling point gives up the baton, if it has it.
    fn hand_over(&self, me: usize, st: &mut St) {
        if st.blocked[me] {
            st.blocked[me] = false;
            st.beat += 1;
        }
        if st.cur == me || st.cur == NOBODY {
            self.choose(st);
        }
    }

    /// Body of one simulated client thread.
    pub fn client<R>(self: &Arc<Self>, me: usize, f: impl FnOnce() -> R) -> R {
        ME.with(|m| m.set((me, Arc::as_ptr(self))));
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.tid[me] = unsafe { gettid() };
        self.wait(me, st);
        let r = f();
        ME.with(|m| m.set((0, std::ptr::null())));
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.alive[me] = false;
        self.hand_over(me, &mut st);
        self.cv.notify_all();
        r
    }

    /// Run until all clients are done. A client that sleeps outside the simulator's seams while it has
    /// the baton (on a real lock held by a parked client, say) is set aside until it moves again.
    /// False if all clients left sleep there for ever.
    pub fn go(&self) -> bool {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        self.choose(&mut st);
        self.cv.notify_all();
        let mut last = st.beat;
        let mut asleep = 0;
        while st.alive.iter().any(|a| *a) {
            let (g, t) = self
                .cv
                .wait_timeout(st, Duration::from_millis(10))
                .unwrap_or_else(|e| e.into_inner());
            st = g;
            if st.beat != last {
                last = st.beat;
                asleep = 0;
                continue;
            }
            if !t.timed_out() {
                continue;
            }
            let sleeps = |tid: i32| {
                std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
                    .ok()
                    .and_then(|s| s.rsplit(')').next().map(|r| r.trim().starts_with('S')))
                    .unwrap_or(false)
            };
            let held = if st.cur == NOBODY {
                (0..st.alive.len()).filter(|i| st.alive[*i]).all(|i| sleeps(st.tid[i]))
            } else {
                st.tid[st.cur] != 0 && sleeps(st.tid[st.cur])
            };
            if !held {
                asleep = 0;
                continue;
            }
            asleep += 1;
            if st.cur == NOBODY {
                if asleep > 150 {
                    st.deadlock = true;
                    return false;
                }
            } else if asleep >= 3 {
                asleep = 0;
                let c = st.cur;
                st.blocked[c] = true;
                st.stats.waits += 1;
                self.choose(&mut st);
                self.cv.notify_all();
            }
        }
        true
    }

    pub fn stats(&self) -> Stats {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).stats.clone()
    }
}

/// Scheduling point inside library code.
pub fn point_yield(at: Point) {
    let (me, s) = ME.with(|m| m.get());
    if !s.is_null() {
        unsafe { (*s).yield_now(me, Some(at)) }
    }
}

/// Scheduling point at a call of user code (VM).
pub fn call_yield() {
    let (me, s) = ME.with(|m| m.get());
    if !s.is_null() {
        let was = points_on(false);
        unsafe { (*s).yield_now(me, None) }
        points_on(was);
    }
}

/// Run library code with the scheduling points of the run on.
pub fn with_points<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let was = points_on(on);
    let r = f();
    points_on(was);
    r
}
