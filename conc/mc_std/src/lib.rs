//! `std` with an instrumented `sync`: what the crates under test see as `::std`.
pub use ::std::*;
/// The real thing, for the harness
pub mod real { pub use ::std::*; }

pub mod sync {
    pub use ::std::sync::*;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::panic::{RefUnwindSafe, UnwindSafe};
    use sched::Op;

    fn addr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }

    // ------------------------------------------------------------ Mutex
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> { id: u8, inner: ::std::sync::Mutex<T> }
    pub struct MutexGuard<'a, T: ?Sized + 'a> { inner: Option<::std::sync::MutexGuard<'a, T>>, a: usize }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self { Mutex { id: 0, inner: ::std::sync::Mutex::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
    }
    fn wrap<'a, T: ?Sized>(r: LockResult<::std::sync::MutexGuard<'a, T>>, a: usize) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { inner: Some(g), a }),
            Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), a })),
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            let a = addr(&self.id);
            sched::point(Op::Lock(a));
            sched::acquired(a, false);
            wrap(self.inner.lock(), a)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let a = addr(&self.id);
            sched::point(Op::Any);
            match self.inner.try_lock() {
                Ok(g) => { sched::acquired(a, false); Ok(MutexGuard { inner: Some(g), a }) }
                Err(TryLockError::Poisoned(e)) => {
                    sched::acquired(a, false);
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), a })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool { sched::point(Op::Write(addr(&self.id))); self.inner.is_poisoned() }
        pub fn clear_poison(&self) { sched::point(Op::Write(addr(&self.id))); self.inner.clear_poison() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
    }
    impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
    }
    impl<T: ?Sized> UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
    impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.inner.as_ref().unwrap() } }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() } }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            // Poisoning is visible to others
            if ::std::thread::panicking() { sched::point(Op::Write(self.a)); }
            self.inner = None;
            sched::released(self.a);
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
    }

    // ------------------------------------------------------------ RwLock
    #[derive(Default)]
    pub struct RwLock<T: ?Sized> { id: u8, inner: ::std::sync::RwLock<T> }
    pub struct RwLockReadGuard<'a, T: ?Sized + 'a> { inner: Option<::std::sync::RwLockReadGuard<'a, T>>, a: usize }
    pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> { inner: Option<::std::sync::RwLockWriteGuard<'a, T>>, a: usize }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self { RwLock { id: 0, inner: ::std::sync::RwLock::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let a = addr(&self.id);
            sched::point(Op::RLock(a));
            sched::acquired(a, true);
            match self.inner.read() {
                Ok(g) => Ok(RwLockReadGuard { inner: Some(g), a }),
                Err(e) => Err(PoisonError::new(RwLockReadGuard { inner: Some(e.into_inner()), a })),
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let a = addr(&self.id);
            sched::point(Op::Lock(a));
            sched::acquired(a, false);
            match self.inner.write() {
                Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), a }),
                Err(e) => Err(PoisonError::new(RwLockWriteGuard { inner: Some(e.into_inner()), a })),
            }
        }
        pub fn is_poisoned(&self) -> bool { sched::point(Op::Write(addr(&self.id))); self.inner.is_poisoned() }
        pub fn clear_poison(&self) { sched::point(Op::Write(addr(&self.id))); self.inner.clear_poison() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
    }
    impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
    }
    impl<T: ?Sized> UnwindSafe for RwLock<T> {}
    impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.inner.as_ref().unwrap() } }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.inner.as_ref().unwrap() } }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() } }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.inner = None; sched::released(self.a); } }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if ::std::thread::panicking() { sched::point(Op::Write(self.a)); }
            self.inner = None;
            sched::released(self.a);
        }
    }

    // ------------------------------------------------------------ OnceLock and friends
    /// Initialisation runs under an instrumented lock
    #[derive(Default)]
    pub struct OnceLock<T> { m: Mutex<()>, inner: ::std::sync::OnceLock<T> }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self { OnceLock { m: Mutex::new(()), inner: ::std::sync::OnceLock::new() } }
        pub fn get(&self) -> Option<&T> { sched::point(Op::Read(addr(&self.m))); self.inner.get() }
        pub fn get_mut(&mut self) -> Option<&mut T> { self.inner.get_mut() }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
            self.inner.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            let _g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
            self.inner.get_or_init(f)
        }
        pub fn into_inner(self) -> Option<T> { self.inner.into_inner() }
        pub fn take(&mut self) -> Option<T> { self.inner.take() }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
    }
    pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: ::std::sync::Mutex<Option<F>> }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self { LazyLock { c: OnceLock::new(), f: ::std::sync::Mutex::new(Some(f)) } }
        pub fn force(this: &Self) -> &T {
            this.c.get_or_init(|| { let f = this.f.lock().unwrap().take().unwrap(); f() })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }

    pub struct Once { c: OnceLock<()> }
    impl Once {
        pub const fn new() -> Self { Once { c: OnceLock::new() } }
        pub fn call_once<F: FnOnce()>(&self, f: F) { self.c.get_or_init(f); }
        pub fn is_completed(&self) -> bool { self.c.get().is_some() }
    }

    // ------------------------------------------------------------ atomics
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use sched::{point, Op};
        macro_rules! atomic {
            ($n:ident, $t:ty, [$($int:tt)*]) => {
                #[derive(Default)]
                pub struct $n { v: ::std::sync::atomic::$n }
                #[allow(dead_code)]
                impl $n {
                    pub const fn new(v: $t) -> Self { $n { v: ::std::sync::atomic::$n::new(v) } }
                    fn r(&self) { point(Op::Read(&self.v as *const _ as usize)) }
                    fn w(&self) { point(Op::Write(&self.v as *const _ as usize)) }
                    pub fn load(&self, o: Ordering) -> $t { self.r(); self.v.load(o) }
                    pub fn store(&self, x: $t, o: Ordering) { self.w(); self.v.store(x, o) }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.swap(x, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.w(); self.v.compare_exchange(a, b, s, f) }
                    // A spurious failure is not explored
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.w(); self.v.compare_exchange(a, b, s, f) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut p = self.load(f);
                        while let Some(n) = g(p) {
                            match self.compare_exchange_weak(p, n, s, f) { x @ Ok(_) => return x, Err(n) => p = n }
                        }
                        Err(p)
                    }
                    pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_and(x, o) }
                    pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_or(x, o) }
                    pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_xor(x, o) }
                    pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
                    pub fn into_inner(self) -> $t { self.v.into_inner() }
                    atomic!{@int $t, $($int)*}
                }
                impl ::std::fmt::Debug for $n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.v.fmt(f) }
                }
                impl From<$t> for $n { fn from(v: $t) -> Self { $n::new(v) } }
            };
            (@int $t:ty, int) => {
                pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_add(x, o) }
                pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_sub(x, o) }
                pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_max(x, o) }
                pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { self.w(); self.v.fetch_min(x, o) }
            };
            (@int $t:ty,) => {};
        }
        atomic!(AtomicBool, bool, []);
        atomic!(AtomicUsize, usize, [int]);
        atomic!(AtomicIsize, isize, [int]);
        atomic!(AtomicU64, u64, [int]);
        atomic!(AtomicI64, i64, [int]);
        atomic!(AtomicU32, u32, [int]);
        atomic!(AtomicI32, i32, [int]);
        atomic!(AtomicU16, u16, [int]);
        atomic!(AtomicU8, u8, [int]);
    }
}
