//! Replacement of parking_lot: the same API (through lock_api), with locks whose acquisitions are scheduling points
//! of the controlled scheduler.  In threads that are not controlled they are plain spin locks.
//!
//! The rwlock has the blocking behaviour of parking_lot: a writer first claims the writer bit, which stops new
//! readers, then waits for the readers to leave; so a thread that reads recursively while a writer waits deadlocks.
use lock_api::{GuardNoSend, GuardSend};
use mcctl::Kind;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[cfg(feature = "send_guard")]
type GuardMarker = GuardSend;
#[cfg(not(feature = "send_guard"))]
type GuardMarker = GuardNoSend;
#[allow(unused)]
fn _unused(_: Option<GuardSend>, _: Option<GuardNoSend>) {}

fn spin(i: &mut u32) {
    *i += 1;
    if *i < 50 {
        std::hint::spin_loop();
    } else if *i < 200 {
        std::thread::yield_now();
    } else {
        std::thread::sleep(Duration::from_micros(50));
    }
}

// ------------------------------------------------------------------------------------------------
pub struct RawMutex {
    state: AtomicUsize,
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { state: AtomicUsize::new(0) };
    type GuardMarker = GuardMarker;
    #[inline]
    fn lock(&self) {
        mcctl::rng::calm();
        let id = self as *const _ as usize;
        if mcctl::controlled() && mcctl::acquire(id, Kind::Write, &|| self.state.load(Acquire) == 0) {
            self.state.store(1, Release);
            return;
        }
        let mut i = 0;
        while self.state.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
            spin(&mut i);
        }
    }
    #[inline]
    fn try_lock(&self) -> bool {
        let id = self as *const _ as usize;
        mcctl::tried();
        mcctl::touch(id, Kind::Write);
        let r = self.state.compare_exchange(0, 1, Acquire, Relaxed).is_ok();
        if !r {
            mcctl::yielding(id, Kind::Write);
        }
        r
    }
    #[inline]
    unsafe fn unlock(&self) {
        mcctl::releasing(self as *const _ as usize);
        self.state.store(0, Release);
        mcctl::released(self as *const _ as usize, Kind::Write);
    }
    fn is_locked(&self) -> bool {
        mcctl::tried();
        mcctl::touch(self as *const _ as usize, Kind::Read);
        self.state.load(Acquire) != 0
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.try_lock_until(Instant::now() + t)
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        loop {
            if lock_api::RawMutex::try_lock(self) {
                return true;
            }
            if mcctl::controlled() || Instant::now() >= t {
                return false;
            }
            std::thread::yield_now();
        }
    }
}

// ------------------------------------------------------------------------------------------------
const WRITER: usize = 1; // a writer holds the lock
const PENDING: usize = 2; // a writer claims the lock and waits for readers to leave
const UPGR: usize = 4; // an upgradable reader holds the lock (counted as reader too)
const READER: usize = 8;

pub struct RawRwLock {
    state: AtomicUsize,
}
impl RawRwLock {
    fn id(&self) -> usize {
        self as *const _ as usize
    }
    fn st(&self) -> usize {
        self.state.load(Acquire)
    }
    fn upd(&self, ok: impl Fn(usize) -> bool, f: impl Fn(usize) -> usize) -> bool {
        let mut s = self.st();
        loop {
            if !ok(s) {
                return false;
            }
            match self.state.compare_exchange_weak(s, f(s), AcqRel, Acquire) {
                Ok(_) => return true,
                Err(x) => s = x,
            }
        }
    }
    fn wait(&self, kind: Kind, ok: impl Fn(usize) -> bool, f: impl Fn(usize) -> usize) {
        mcctl::rng::calm();
        if mcctl::controlled() && mcctl::acquire(self.id(), kind, &|| ok(self.st())) {
            let _ = self.upd(|_| true, &f);
            return;
        }
        let mut i = 0;
        while !self.upd(&ok, &f) {
            spin(&mut i);
        }
    }
    fn attempt(&self, kind: Kind, ok: impl Fn(usize) -> bool, f: impl Fn(usize) -> usize) -> bool {
        mcctl::tried();
        mcctl::touch(self.id(), kind);
        let r = self.upd(ok, f);
        if !r {
            mcctl::yielding(self.id(), kind);
        }
        r
    }
    fn wait_readers(&self) {
        // PENDING is set by the caller
        if self.st() / READER == 0 {
            let _ = self.upd(|_| true, |s| (s & !PENDING) | WRITER);
        } else {
            self.wait(Kind::Wait, |s| s / READER == 0, |s| (s & !PENDING) | WRITER);
        }
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { state: AtomicUsize::new(0) };
    type GuardMarker = GuardMarker;
    #[inline]
    fn lock_shared(&self) {
        self.wait(Kind::Read, |s| s & (WRITER | PENDING) == 0, |s| s + READER)
    }
    #[inline]
    fn try_lock_shared(&self) -> bool {
        self.attempt(Kind::Read, |s| s & (WRITER | PENDING) == 0, |s| s + READER)
    }
    #[inline]
    unsafe fn unlock_shared(&self) {
        mcctl::releasing(self.id());
        self.state.fetch_sub(READER, AcqRel);
        mcctl::released(self.id(), Kind::Read);
    }
    #[inline]
    fn lock_exclusive(&self) {
        self.wait(Kind::Write, |s| s & (WRITER | PENDING | UPGR) == 0, |s| s | PENDING);
        self.wait_readers();
    }
    #[inline]
    fn try_lock_exclusive(&self) -> bool {
        self.attempt(Kind::Write, |s| s == 0, |_| WRITER)
    }
    #[inline]
    unsafe fn unlock_exclusive(&self) {
        mcctl::releasing(self.id());
        self.state.fetch_and(!WRITER, AcqRel);
        mcctl::released(self.id(), Kind::Write);
    }
    fn is_locked(&self) -> bool {
        mcctl::tried();
        mcctl::touch(self.id(), Kind::Read);
        self.st() & !PENDING != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        mcctl::tried();
        mcctl::touch(self.id(), Kind::Read);
        self.st() & WRITER != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        mcctl::releasing(self.id());
        let _ = self.upd(|_| true, |s| (s & !WRITER) + READER);
        mcctl::released(self.id(), Kind::Write);
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.wait(
            Kind::Read,
            |s| s & WRITER == 0 && (s & PENDING == 0 || s / READER > 0),
            |s| s + READER,
        )
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.attempt(
            Kind::Read,
            |s| s & WRITER == 0 && (s & PENDING == 0 || s / READER > 0),
            |s| s + READER,
        )
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        self.try_lock_shared_until(Instant::now() + t)
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        loop {
            if lock_api::RawRwLock::try_lock_shared(self) {
                return true;
            }
            if mcctl::controlled() || Instant::now() >= t {
                return false;
            }
            std::thread::yield_now();
        }
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        self.try_lock_exclusive_until(Instant::now() + t)
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        loop {
            if lock_api::RawRwLock::try_lock_exclusive(self) {
                return true;
            }
            if mcctl::controlled() || Instant::now() >= t {
                return false;
            }
            std::thread::yield_now();
        }
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.wait(
            Kind::Write,
            |s| s & (WRITER | PENDING | UPGR) == 0,
            |s| (s | UPGR) + READER,
        )
    }
    fn try_lock_upgradable(&self) -> bool {
        self.attempt(
            Kind::Write,
            |s| s & (WRITER | PENDING | UPGR) == 0,
            |s| (s | UPGR) + READER,
        )
    }
    unsafe fn unlock_upgradable(&self) {
        mcctl::releasing(self.id());
        let _ = self.upd(|_| true, |s| (s & !UPGR) - READER);
        mcctl::released(self.id(), Kind::Write);
    }
    unsafe fn upgrade(&self) {
        mcctl::touch(self.id(), Kind::Write);
        let _ = self.upd(|_| true, |s| ((s & !UPGR) - READER) | PENDING);
        self.wait_readers();
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.attempt(Kind::Write, |s| s / READER == 1, |_| WRITER)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        mcctl::releasing(self.id());
        let _ = self.upd(|_| true, |s| s & !UPGR);
        mcctl::released(self.id(), Kind::Write);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        mcctl::releasing(self.id());
        let _ = self.upd(|_| true, |s| ((s & !WRITER) | UPGR) + READER);
        mcctl::released(self.id(), Kind::Write);
    }
}

// ------------------------------------------------------------------------------------------------
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}

pub use lock_api;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;

// ------------------------------------------------------------------------------------------------
/// Condition variable: tickets; notify_one wakes the oldest waiter.
pub struct Condvar {
    waiters: AtomicUsize,
    woken: AtomicUsize,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: AtomicUsize::new(0), woken: AtomicUsize::new(0) }
    }
    pub fn notify_one(&self) -> bool {
        let id = self as *const _ as usize;
        mcctl::touch(id, Kind::Write);
        let (w, k) = (self.waiters.load(Acquire), self.woken.load(Acquire));
        if k < w {
            self.woken.store(k + 1, Release);
            true
        } else {
            false
        }
    }
    pub fn notify_all(&self) -> usize {
        let id = self as *const _ as usize;
        mcctl::touch(id, Kind::Write);
        let (w, k) = (self.waiters.load(Acquire), self.woken.load(Acquire));
        self.woken.store(w, Release);
        w - k
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let id = self as *const _ as usize;
        let ticket = self.waiters.fetch_add(1, AcqRel);
        MutexGuard::unlocked(guard, || {
            let ok = || self.woken.load(Acquire) > ticket;
            if !mcctl::acquire(id, Kind::Write, &ok) {
                let mut i = 0;
                while !ok() {
                    spin(&mut i);
                }
            }
        });
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *guard) {
            self.wait(guard);
        }
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _t: Duration) -> WaitTimeoutResult {
        let id = self as *const _ as usize;
        MutexGuard::unlocked(guard, || {
            mcctl::yielding(id, Kind::Write);
            std::thread::yield_now();
        });
        WaitTimeoutResult(true)
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _t: Instant) -> WaitTimeoutResult {
        self.wait_for(guard, Duration::ZERO)
    }
}

// ------------------------------------------------------------------------------------------------
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
pub struct Once {
    m: Mutex<()>,
    done: AtomicUsize,
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Once {
        Once { m: const_mutex(()), done: AtomicUsize::new(0) }
    }
    pub fn state(&self) -> OnceState {
        if self.done.load(Acquire) == 1 {
            OnceState::Done
        } else {
            OnceState::New
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let _g = self.m.lock();
        if self.done.load(Acquire) == 0 {
            f();
            self.done.store(1, Release);
        }
    }
}
