pub use ::std::sync::*;

use crate::ctl;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

/// Readers-writer lock state shared by the lock types.
struct Raw {
    writer: AtomicBool,
    readers: AtomicU64,
    poisoned: AtomicBool,
    epoch: AtomicU64,
}

impl Raw {
    const fn new() -> Self {
        Raw { writer: AtomicBool::new(false), readers: AtomicU64::new(0), poisoned: AtomicBool::new(false), epoch: AtomicU64::new(0) }
    }
    /// What an abandoned execution left locked or poisoned is free in the next one.
    fn fresh(&self) {
        if self.epoch.swap(ctl::epoch(), SeqCst) != ctl::epoch() {
            self.writer.store(false, SeqCst);
            self.readers.store(0, SeqCst);
            self.poisoned.store(false, SeqCst);
        }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn note(&self) {
        ctl::set_lock(self.addr(), self.writer.load(SeqCst), self.readers.load(SeqCst));
    }
    fn free(&self, exclusive: bool) -> bool {
        !self.writer.load(SeqCst) && (!exclusive || self.readers.load(SeqCst) == 0)
    }
    fn take(&self, exclusive: bool) {
        if exclusive {
            self.writer.store(true, SeqCst);
        } else {
            self.readers.fetch_add(1, SeqCst);
        }
        self.note();
    }
    fn lock(&self, exclusive: bool, what: &'static str) {
        self.fresh();
        ctl::acquire(self.addr(), exclusive, what);
        // outside an exploration there is one thread: waiting would be for ever
        assert!(self.free(exclusive), "{what}: the lock is held by the thread that asks for it");
        self.take(exclusive);
    }
    fn try_lock(&self, exclusive: bool, what: &'static str) -> bool {
        self.fresh();
        ctl::TRIES.store(true, SeqCst);
        ctl::point(what);
        let ok = self.free(exclusive);
        if ok {
            self.take(exclusive);
        }
        ok
    }
    fn give(&self, exclusive: bool) {
        // whether the lock is held matters to others only if somebody tries it without waiting
        if ctl::TRIES.load(SeqCst) {
            ctl::point("unlock");
        }
        if ::std::thread::panicking() && exclusive {
            self.poisoned.store(true, SeqCst);
        }
        if exclusive {
            self.writer.store(false, SeqCst);
        } else {
            self.readers.fetch_sub(1, SeqCst);
        }
        self.note();
    }
}

macro_rules! guard {
    ($g:ident, $l:ident, $excl:expr) => {
        pub struct $g<'a, T: ?Sized>(&'a $l<T>);
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.data.get() }
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                self.0.raw.give($excl);
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        unsafe impl<T: ?Sized + Sync> Sync for $g<'_, T> {}
    };
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
guard!(MutexGuard, Mutex, true);
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock(true, "Mutex::lock");
        let g = MutexGuard(self);
        if self.raw.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !self.raw.try_lock(true, "Mutex::try_lock") {
            return Err(TryLockError::WouldBlock);
        }
        let g = MutexGuard(self);
        if self.raw.poisoned.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(g))) } else { Ok(g) }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.raw.poisoned.store(false, SeqCst);
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
guard!(RwLockReadGuard, RwLock, false);
guard!(RwLockWriteGuard, RwLock, true);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.lock(false, "RwLock::read");
        let g = RwLockReadGuard(self);
        if self.raw.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.lock(true, "RwLock::write");
        let g = RwLockWriteGuard(self);
        if self.raw.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if !self.raw.try_lock(false, "RwLock::try_read") {
            return Err(TryLockError::WouldBlock);
        }
        Ok(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if !self.raw.try_lock(true, "RwLock::try_write") {
            return Err(TryLockError::WouldBlock);
        }
        Ok(RwLockWriteGuard(self))
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned.load(SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

/// A cell that forgets its value when a new epoch starts: every execution initialises its own.
struct Cell<T> {
    raw: Raw,
    epoch: AtomicU64,
    value: UnsafeCell<*const T>,
}
unsafe impl<T: Send> Send for Cell<T> {}
unsafe impl<T: Send + Sync> Sync for Cell<T> {}

impl<T> Cell<T> {
    const fn new() -> Self {
        Cell { raw: Raw::new(), epoch: AtomicU64::new(0), value: UnsafeCell::new(::std::ptr::null()) }
    }
    fn now(&self) -> Option<&T> {
        if self.epoch.load(SeqCst) != ctl::epoch() {
            return None;
        }
        unsafe { (*self.value.get()).as_ref() }
    }
    fn put(&self, t: T) -> &T {
        unsafe {
            let slot = &mut *self.value.get();
            // the threads of earlier epochs are gone, and their references with them
            if !slot.is_null() {
                drop(Box::from_raw(slot.cast_mut()));
            }
            *slot = Box::into_raw(Box::new(t));
            self.epoch.store(ctl::epoch(), SeqCst);
            &**slot
        }
    }
    fn force(&self, what: &'static str, f: impl FnOnce() -> T) -> &T {
        if let Some(t) = self.now() {
            return t;
        }
        self.raw.lock(true, what);
        // another thread may have been first
        let r = match self.now() {
            Some(t) => t,
            None => self.put(f()),
        };
        self.raw.give(true);
        r
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: Cell<T>,
    init: F,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: Fn() -> T> LazyLock<T, F> {
    pub const fn new(init: F) -> Self {
        LazyLock { cell: Cell::new(), init }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.cell.force("LazyLock", &this.init)
    }
}
impl<T, F: Fn() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct OnceLock<T> {
    cell: Cell<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { cell: Cell::new() }
    }
    pub fn get(&self) -> Option<&T> {
        ctl::point("OnceLock::get");
        self.cell.now()
    }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        self.cell.force("OnceLock::get_or_init", f)
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        ctl::point("OnceLock::set");
        if self.cell.now().is_some() {
            return Err(t);
        }
        self.cell.put(t);
        Ok(())
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::ctl;
    use ::std::sync::atomic as real;
    use real::Ordering::SeqCst;

    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            /// Sequentially consistent, each operation a scheduling point; starts afresh in each epoch.
            pub struct $name {
                init: $t,
                epoch: real::AtomicU64,
                v: real::$name,
            }
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name { init: v, epoch: real::AtomicU64::new(0), v: real::$name::new(v) }
                }
                fn at(&self, what: &'static str) -> &real::$name {
                    ctl::point(what);
                    let e = ctl::epoch();
                    let seen = self.epoch.swap(e, SeqCst);
                    if seen != e && seen != 0 {
                        self.v.store(self.init, SeqCst);
                    }
                    &self.v
                }
                pub fn load(&self, _: Ordering) -> $t {
                    self.at("load").load(SeqCst)
                }
                pub fn store(&self, t: $t, _: Ordering) {
                    self.at("store").store(t, SeqCst)
                }
                pub fn swap(&self, t: $t, _: Ordering) -> $t {
                    self.at("swap").swap(t, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    self.at("compare_exchange").compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    self.at("compare_exchange").compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn fetch_update(&self, _: Ordering, _: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    self.at("fetch_update").fetch_update(SeqCst, SeqCst, f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.v.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.v.into_inner()
                }
            }
            impl Default for $name {
                fn default() -> Self {
                    $name::new(<$t>::default())
                }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.v.fmt(f)
                }
            }
        };
    }
    macro_rules! integer {
        ($name:ident, $t:ty) => {
            atomic!($name, $t);
            impl $name {
                pub fn fetch_add(&self, t: $t, _: Ordering) -> $t {
                    self.at("fetch_add").fetch_add(t, SeqCst)
                }
                pub fn fetch_sub(&self, t: $t, _: Ordering) -> $t {
                    self.at("fetch_sub").fetch_sub(t, SeqCst)
                }
                pub fn fetch_max(&self, t: $t, _: Ordering) -> $t {
                    self.at("fetch_max").fetch_max(t, SeqCst)
                }
                pub fn fetch_min(&self, t: $t, _: Ordering) -> $t {
                    self.at("fetch_min").fetch_min(t, SeqCst)
                }
            }
        };
    }
    integer!(AtomicUsize, usize);
    integer!(AtomicIsize, isize);
    integer!(AtomicU64, u64);
    integer!(AtomicU32, u32);
    integer!(AtomicI64, i64);
    integer!(AtomicI32, i32);
    atomic!(AtomicBool, bool);
}
