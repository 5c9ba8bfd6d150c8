//! A cooperative scheduler for real threads: it owns every decision about who
//! runs next, so that all schedules of a small program can be enumerated.
//!
//! The lock functions of the C library, which the standard library's locks are
//! made of in the toolchain of this repository, are interposed. A thread that
//! is *managed* stops before every acquisition and lets the scheduler choose
//! the next thread; a lock held by another managed thread makes it ineligible.
//! All other threads go straight to the real functions.

use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::ptr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    /// May run.
    Go,
    /// May run, but would rather not (yield).
    Later,
    Exclusive(usize),
    Shared(usize),
    /// Waits on a condition variable, then for the mutex.
    Signal(usize, usize),
    Finished,
}

#[derive(Default)]
struct Lock {
    writer: Option<usize>,
    readers: Vec<usize>,
}

/// One decision: which threads could run, in order of preference, and which of them ran.
#[derive(Clone, Debug)]
pub struct Step {
    pub enabled: Vec<u8>,
    /// Whether choosing anything but the first is a preemption.
    pub preempts: bool,
    pub chosen: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Deadlock(String),
    Livelock,
}

struct Inner {
    want: Vec<Want>,
    locks: HashMap<usize, Lock>,
    prefix: Vec<u8>,
    steps: Vec<Step>,
    end: Option<End>,
    limit: usize,
    diverged: bool,
    switches: usize,
    /// Allocations are scheduling points, too.
    pub alloc_points: bool,
}

pub struct Sched {
    n: usize,
    turn: AtomicU32,
    inner: UnsafeCell<Inner>,
}

// `inner` is only touched by the thread whose turn it is.
unsafe impl Sync for Sched {}
unsafe impl Send for Sched {}

thread_local! {
    static ME: Cell<(usize, usize)> = Cell::new((0, 0));
    static BUSY: Cell<bool> = Cell::new(false);
}

fn managed() -> Option<(&'static Sched, usize)> {
    let (p, i) = ME.try_with(|m| m.get()).unwrap_or((0, 0));
    if p == 0 || BUSY.with(|b| b.get()) {
        None
    } else {
        Some((unsafe { &*(p as *const Sched) }, i))
    }
}

struct Busy;
impl Busy {
    fn new() -> Busy {
        BUSY.with(|b| b.set(true));
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(false));
    }
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn syscall(n: c_long, ...) -> c_long;
}

const SYS_FUTEX: c_long = 202;
const WAIT: c_int = 128;
const WAKE: c_int = 129;

fn futex_wait(a: &AtomicU32, seen: u32) {
    unsafe {
        syscall(SYS_FUTEX, a as *const AtomicU32, WAIT, seen, ptr::null::<u8>());
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        syscall(SYS_FUTEX, a as *const AtomicU32, WAKE, i32::max_value());
    }
}

type Job = (Arc<Sched>, usize, Box<dyn FnOnce() + Send>);

/// A thread that runs one job after the other.
struct Worker {
    shared: Arc<Shared>,
}

struct Shared {
    /// 0: idle, 1: has a job.
    state: AtomicU32,
    job: UnsafeCell<Option<Job>>,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

thread_local! {
    static POOL: RefCell<Vec<Worker>> = RefCell::new(Vec::new());
}

impl Worker {
    fn start() -> Worker {
        let shared = Arc::new(Shared { state: AtomicU32::new(0), job: UnsafeCell::new(None) });
        let s = shared.clone();
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .name("managed".to_owned())
            .spawn(move || loop {
                while s.state.load(Ordering::Acquire) == 0 {
                    futex_wait(&s.state, 0);
                }
                let (sched, i, f) = unsafe { (*s.job.get()).take().unwrap() };
                sched.thread(i, f);
                drop(sched);
                s.state.store(0, Ordering::Release);
                futex_wake(&s.state);
            })
            .unwrap();
        Worker { shared }
    }

    fn give(&self, job: Job) {
        unsafe { *self.shared.job.get() = Some(job) };
        self.shared.state.store(1, Ordering::Release);
        futex_wake(&self.shared.state);
    }

    fn wait_until_idle(&self) {
        while self.shared.state.load(Ordering::Acquire) == 1 {
            futex_wait(&self.shared.state, 1);
        }
    }
}

impl Sched {
    fn thread(&self, i: usize, f: Box<dyn FnOnce() + Send>) {
        self.wait_for(i as u32);
        ME.with(|m| m.set((self as *const Sched as usize, i)));
        f();
        ME.with(|m| m.set((0, 0)));
        let inner = unsafe { &mut *self.inner.get() };
        inner.want[i] = Want::Finished;
        match self.choose(inner, None) {
            Some(next) => self.give(next as u32),
            None => self.give(self.n as u32),
        }
    }

    /// `program[i]` is what thread `i` does. Runs it along the schedule that starts with
    /// `prefix` and goes on with the first choice everywhere.
    pub fn run(
        program: Vec<Box<dyn FnOnce() + Send>>,
        prefix: Vec<u8>,
        alloc_points: bool,
    ) -> (Vec<Step>, End, bool, usize) {
        let n = program.len();
        let sched = Arc::new(Sched {
            n,
            turn: AtomicU32::new(n as u32),
            inner: UnsafeCell::new(Inner {
                want: vec![Want::Go; n],
                locks: HashMap::new(),
                prefix,
                steps: Vec::new(),
                end: None,
                limit: 2_000_000,
                diverged: false,
                switches: 0,
                alloc_points,
            }),
        });
        let mut pool = POOL.with(|p| std::mem::replace(&mut *p.borrow_mut(), Vec::new()));
        while pool.len() < n {
            pool.push(Worker::start());
        }
        for (i, f) in program.into_iter().enumerate() {
            pool[i].give((sched.clone(), i, f));
        }
        let inner = unsafe { &mut *sched.inner.get() };
        match sched.choose(inner, None) {
            Some(i) => sched.give(i as u32),
            None => unreachable!(),
        }
        sched.wait_for(n as u32);
        let inner = unsafe { &mut *sched.inner.get() };
        let end = inner.end.take().unwrap_or(End::Done);
        if end == End::Done {
            for w in &pool[..n] {
                w.wait_until_idle();
            }
            POOL.with(|p| *p.borrow_mut() = pool);
        } else {
            // The threads are stuck for good; they and what they use stay behind.
            std::mem::forget(pool);
            std::mem::forget(sched.clone());
        }
        let steps = std::mem::replace(&mut inner.steps, Vec::new());
        (steps, end, inner.diverged, inner.switches)
    }

    fn wait_for(&self, i: u32) {
        let mut spins = 0;
        loop {
            let t = self.turn.load(Ordering::Acquire);
            if t == i {
                return;
            }
            spins += 1;
            if spins < 100 {
                std::hint::spin_loop();
            } else {
                futex_wait(&self.turn, t);
            }
        }
    }

    fn give(&self, i: u32) {
        self.turn.store(i, Ordering::Release);
        futex_wake(&self.turn);
    }

    fn eligible(inner: &Inner, i: usize) -> bool {
        let free = |l: usize, shared: bool| match inner.locks.get(&l) {
            None => true,
            Some(l) => l.writer.is_none() && (shared || l.readers.is_empty()),
        };
        match inner.want[i] {
            Want::Go | Want::Later => true,
            Want::Exclusive(l) => free(l, false),
            Want::Shared(l) => free(l, true),
            Want::Signal(..) | Want::Finished => false,
        }
    }

    /// Decides who runs next; `None` when nobody is left, or when nobody can run.
    fn choose(&self, inner: &mut Inner, current: Option<usize>) -> Option<usize> {
        let mut enabled = Vec::new();
        let mut preempts = false;
        if let Some(c) = current {
            if Sched::eligible(inner, c) && inner.want[c] != Want::Later {
                enabled.push(c as u8);
                preempts = true;
            }
        }
        for i in 0..self.n {
            if Some(i) != current && Sched::eligible(inner, i) && inner.want[i] != Want::Later {
                enabled.push(i as u8);
            }
        }
        if !preempts {
            // Those that yielded come last.
            for i in 0..self.n {
                if inner.want[i] == Want::Later && Some(i) != current {
                    enabled.push(i as u8);
                }
            }
            if let Some(c) = current {
                if inner.want[c] == Want::Later {
                    enabled.push(c as u8);
                }
            }
        }
        if enabled.is_empty() {
            let stuck: Vec<String> = (0..self.n)
                .filter(|&i| inner.want[i] != Want::Finished)
                .map(|i| {
                    let what = match inner.want[i] {
                        Want::Exclusive(l) | Want::Shared(l) => {
                            let l = &inner.locks[&l];
                            format!("a lock held by {:?}{:?}", l.writer.iter().collect::<Vec<_>>(), l.readers)
                        }
                        _ => "a signal".to_owned(),
                    };
                    format!("thread {} waits for {}", i, what)
                })
                .collect();
            if !stuck.is_empty() {
                inner.end = Some(End::Deadlock(stuck.join(", ")));
            }
            return None;
        }
        let pos = inner.steps.len();
        let chosen = if pos < inner.prefix.len() {
            let c = inner.prefix[pos] as usize;
            if c < enabled.len() {
                c
            } else {
                inner.diverged = true;
                0
            }
        } else {
            0
        };
        let next = enabled[chosen] as usize;
        inner.steps.push(Step { enabled, preempts, chosen });
        if inner.steps.len() > inner.limit {
            inner.end = Some(End::Livelock);
            return None;
        }
        Some(next)
    }

    /// The thread `me` is about to do what `want` says.
    fn point(&self, me: usize, want: Want) {
        let inner = unsafe { &mut *self.inner.get() };
        inner.want[me] = want;
        match self.choose(inner, Some(me)) {
            Some(next) if next == me => (),
            Some(next) => {
                inner.switches += 1;
                self.give(next as u32);
                self.wait_for(me as u32);
            }
            None => {
                self.give(self.n as u32);
                loop {
                    std::thread::park();
                }
            }
        }
        let inner = unsafe { &mut *self.inner.get() };
        inner.want[me] = Want::Go;
    }

    fn acquire(&self, me: usize, l: usize, shared: bool) {
        let _busy = Busy::new();
        self.point(me, if shared { Want::Shared(l) } else { Want::Exclusive(l) });
        self.take(me, l, shared);
    }

    fn take(&self, me: usize, l: usize, shared: bool) {
        let inner = unsafe { &mut *self.inner.get() };
        let lock = inner.locks.entry(l).or_insert_with(Lock::default);
        if shared {
            lock.readers.push(me);
        } else {
            lock.writer = Some(me);
        }
    }

    fn try_take(&self, me: usize, l: usize, shared: bool) -> bool {
        let _busy = Busy::new();
        self.point(me, Want::Go);
        let inner = unsafe { &mut *self.inner.get() };
        inner.want[me] = if shared { Want::Shared(l) } else { Want::Exclusive(l) };
        let ok = Sched::eligible(inner, me);
        inner.want[me] = Want::Go;
        if ok {
            self.take(me, l, shared);
        }
        ok
    }

    fn release(&self, me: usize, l: usize) {
        let _busy = Busy::new();
        let inner = unsafe { &mut *self.inner.get() };
        let mut empty = false;
        if let Some(lock) = inner.locks.get_mut(&l) {
            if lock.writer == Some(me) {
                lock.writer = None;
            } else if let Some(p) = lock.readers.iter().position(|&r| r == me) {
                lock.readers.remove(p);
            }
            empty = lock.writer.is_none() && lock.readers.is_empty();
        }
        if empty {
            inner.locks.remove(&l);
        }
    }

    fn wait_signal(&self, me: usize, cond: usize, mutex: usize) {
        let _busy = Busy::new();
        self.point(me, Want::Signal(cond, mutex));
        self.take(me, mutex, false);
    }

    fn signal(&self, cond: usize, all: bool) {
        let inner = unsafe { &mut *self.inner.get() };
        for i in 0..self.n {
            if let Want::Signal(c, m) = inner.want[i] {
                if c == cond {
                    inner.want[i] = Want::Exclusive(m);
                    if !all {
                        break;
                    }
                }
            }
        }
    }
}

/// Runs `f` without scheduling points.
pub fn quiet<R, F: FnOnce() -> R>(f: F) -> R {
    if BUSY.with(|b| b.get()) {
        return f();
    }
    let _busy = Busy::new();
    f()
}

/// An allocation of a managed thread.
pub fn allocation() {
    if let Some((s, me)) = managed() {
        let inner = unsafe { &mut *s.inner.get() };
        if inner.alloc_points {
            let _busy = Busy::new();
            s.point(me, Want::Go);
        }
    }
}

fn real(slot: &AtomicUsize, name: &[u8]) -> usize {
    let mut p = slot.load(Ordering::Relaxed);
    if p == 0 {
        const NEXT: *mut c_void = -1isize as *mut c_void;
        p = unsafe { dlsym(NEXT, name.as_ptr() as *const c_char) } as usize;
        assert!(p != 0);
        slot.store(p, Ordering::Relaxed);
    }
    p
}

macro_rules! next1 {
    ($name:expr, $a:expr) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real(&SLOT, $name));
        f($a)
    }};
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.acquire(me, m as usize, false);
    }
    next1!(b"pthread_mutex_lock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        if !s.try_take(me, m as usize, false) {
            return 16;
        }
        let r = next1!(b"pthread_mutex_trylock\0", m);
        if r != 0 {
            s.release(me, m as usize);
        }
        return r;
    }
    next1!(b"pthread_mutex_trylock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.release(me, m as usize);
    }
    next1!(b"pthread_mutex_unlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_rdlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.acquire(me, m as usize, true);
    }
    next1!(b"pthread_rwlock_rdlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_wrlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.acquire(me, m as usize, false);
    }
    next1!(b"pthread_rwlock_wrlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_tryrdlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        if !s.try_take(me, m as usize, true) {
            return 16;
        }
        let r = next1!(b"pthread_rwlock_tryrdlock\0", m);
        if r != 0 {
            s.release(me, m as usize);
        }
        return r;
    }
    next1!(b"pthread_rwlock_tryrdlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_trywrlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        if !s.try_take(me, m as usize, false) {
            return 16;
        }
        let r = next1!(b"pthread_rwlock_trywrlock\0", m);
        if r != 0 {
            s.release(me, m as usize);
        }
        return r;
    }
    next1!(b"pthread_rwlock_trywrlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_unlock(m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.release(me, m as usize);
    }
    next1!(b"pthread_rwlock_unlock\0", m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_wait(c: *mut c_void, m: *mut c_void) -> c_int {
    if let Some((s, me)) = managed() {
        s.release(me, m as usize);
        next1!(b"pthread_mutex_unlock\0", m);
        s.wait_signal(me, c as usize, m as usize);
        return next1!(b"pthread_mutex_lock\0", m);
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(*mut c_void, *mut c_void) -> c_int =
        std::mem::transmute(real(&SLOT, b"pthread_cond_wait\0"));
    f(c, m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_timedwait(c: *mut c_void, m: *mut c_void, t: *const c_void) -> c_int {
    if let Some((s, me)) = managed() {
        // As if the time had run out at once.
        s.release(me, m as usize);
        next1!(b"pthread_mutex_unlock\0", m);
        {
            let _busy = Busy::new();
            s.point(me, Want::Later);
        }
        s.acquire(me, m as usize, false);
        next1!(b"pthread_mutex_lock\0", m);
        return 110;
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(*mut c_void, *mut c_void, *const c_void) -> c_int =
        std::mem::transmute(real(&SLOT, b"pthread_cond_timedwait\0"));
    f(c, m, t)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_signal(c: *mut c_void) -> c_int {
    if let Some((s, _)) = managed() {
        s.signal(c as usize, false);
    }
    next1!(b"pthread_cond_signal\0", c)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_broadcast(c: *mut c_void) -> c_int {
    if let Some((s, _)) = managed() {
        s.signal(c as usize, true);
    }
    next1!(b"pthread_cond_broadcast\0", c)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some((s, me)) = managed() {
        let _busy = Busy::new();
        s.point(me, Want::Later);
        return 0;
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn() -> c_int = std::mem::transmute(real(&SLOT, b"sched_yield\0"));
    f()
}

/// The schedule after `steps` in depth-first order, among those with at most `bound` preemptions.
pub fn next_schedule(steps: &[Step], bound: usize) -> Option<Vec<u8>> {
    let mut spent = vec![0usize; steps.len() + 1];
    for (i, s) in steps.iter().enumerate() {
        spent[i + 1] = spent[i] + (s.preempts && s.chosen > 0) as usize;
    }
    for i in (0..steps.len()).rev() {
        let s = &steps[i];
        let c = s.chosen + 1;
        if c < s.enabled.len() && spent[i] + (s.preempts as usize) <= bound {
            let mut p: Vec<u8> = steps[..i].iter().map(|s| s.chosen as u8).collect();
            p.push(c as u8);
            return Some(p);
        }
    }
    None
}
