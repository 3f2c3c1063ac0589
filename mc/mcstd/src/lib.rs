//! `std`, as the crate under test sees it: atomics and the locks of `std::sync` are scheduling points of the controlled scheduler.
//! `rustc-wrap` passes this crate to the compiler as `std` when it compiles hnsw_rs (and only then).
pub use ::std::*;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if mcctl::controlled() {
            mcctl::yielding(8, mcctl::Kind::Write)
        } else {
            ::std::hint::spin_loop()
        }
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if mcctl::controlled() {
            mcctl::yielding(8, mcctl::Kind::Write)
        } else {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if mcctl::controlled() {
            mcctl::yielding(8, mcctl::Kind::Write)
        } else {
            ::std::thread::sleep(d)
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    pub use crate::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use mcctl::Kind;
        use ::std::sync::atomic as s;

        macro_rules! common {
            ($n:ident, $t:ty, [$($g:tt)*]) => {
                impl $($g)* $n $($g)* {
                    pub const fn new(v: $t) -> Self {
                        Self(s::$n::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub const fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub const fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                    #[inline]
                    fn at(&self, k: Kind) {
                        mcctl::touch(self as *const _ as *const u8 as usize, k)
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        self.at(Kind::Read);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        self.at(Kind::Write);
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        self.at(Kind::Write);
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.at(Kind::Write);
                        self.0.compare_exchange(a, b, x, y)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.at(Kind::Write);
                        self.0.compare_exchange(a, b, x, y)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, x: Ordering, y: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut p = self.load(y);
                        while let Some(n) = f(p) {
                            match self.compare_exchange_weak(p, n, x, y) {
                                r @ Ok(_) => return r,
                                Err(q) => p = q,
                            }
                        }
                        Err(p)
                    }
                }
                impl $($g)* From<$t> for $n $($g)* {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl $($g)* ::std::fmt::Debug for $n $($g)* {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! ints { ($($n:ident $t:ty),*) => { $(
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $n(s::$n);
            common!($n, $t, []);
            ints!(@ $n $t: fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
        )* };
            (@ $n:ident $t:ty: $($f:ident)*) => {
                impl $n { $(
                    pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        self.at(Kind::Write);
                        self.0.$f(v, o)
                    }
                )* }
            };
        }
        ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);

        #[derive(Default)]
        #[repr(transparent)]
        pub struct AtomicBool(s::AtomicBool);
        common!(AtomicBool, bool, []);
        ints!(@ AtomicBool bool: fetch_and fetch_nand fetch_or fetch_xor);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.at(Kind::Write);
                self.0.fetch_xor(true, o)
            }
        }
        #[repr(transparent)]
        pub struct AtomicPtr<T>(s::AtomicPtr<T>);
        common!(AtomicPtr, *mut T, [<T>]);

        pub fn fence(o: Ordering) {
            s::fence(o)
        }
    }
}

/// locks of std::sync, on those of the patched parking_lot; never poisoned
mod locks {
    use ::std::fmt;
    use ::std::sync::{LockResult, TryLockError, TryLockResult};

    pub type MutexGuard<'a, T> = parking_lot::MutexGuard<'a, T>;
    pub type RwLockReadGuard<'a, T> = parking_lot::RwLockReadGuard<'a, T>;
    pub type RwLockWriteGuard<'a, T> = parking_lot::RwLockWriteGuard<'a, T>;

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(parking_lot::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex(parking_lot::const_mutex(v))
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.0.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            Ok(self.0.lock())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            self.0.try_lock().ok_or(TryLockError::WouldBlock)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.0.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Mutex::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(parking_lot::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock(parking_lot::const_rwlock(v))
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.0.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            Ok(self.0.read())
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            Ok(self.0.write())
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            self.0.try_read().ok_or(TryLockError::WouldBlock)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            self.0.try_write().ok_or(TryLockError::WouldBlock)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.0.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
    }
    impl<T> From<T> for RwLock<T> {
        fn from(v: T) -> Self {
            RwLock::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Default)]
    pub struct Condvar(parking_lot::Condvar);
    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Condvar")
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(parking_lot::Condvar::new())
        }
        pub fn notify_one(&self) {
            self.0.notify_one();
        }
        pub fn notify_all(&self) {
            self.0.notify_all();
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            self.0.wait(&mut g);
            Ok(g)
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, f: F) -> LockResult<MutexGuard<'a, T>> {
            self.0.wait_while(&mut g, f);
            Ok(g)
        }
    }
}
