//! Scheduling-aware replacements for synchronous primitives, used by the code
//! under test when it is compiled with `--cfg tchannel_mc`.

use std::sync::atomic::Ordering;

macro_rules! atomic {
    ($name:ident, $std:ident, $t:ty) => {
        #[derive(Debug)]
        pub struct $name(pub(super) std::sync::atomic::$std);
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl $name {
            pub fn new(v: $t) -> Self {
                Self(std::sync::atomic::$std::new(v))
            }
            pub fn load(&self, _o: Ordering) -> $t {
                mccore::point("atomic");
                self.0.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _o: Ordering) {
                mccore::point("atomic");
                self.0.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                mccore::point("atomic");
                self.0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(
                &self,
                c: $t,
                n: $t,
                _s: Ordering,
                _f: Ordering,
            ) -> Result<$t, $t> {
                mccore::point("atomic");
                self.0.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(
                &self,
                c: $t,
                n: $t,
                s: Ordering,
                f: Ordering,
            ) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                _s: Ordering,
                _f: Ordering,
                mut f: F,
            ) -> Result<$t, $t> {
                let mut prev = self.load(Ordering::SeqCst);
                while let Some(next) = f(prev) {
                    match self.compare_exchange(prev, next, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(x) => return Ok(x),
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            atomic!(@op $t: fetch_and, fetch_or, fetch_xor, fetch_nand);
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
    (@op $t:ty: $($f:ident),*) => {
        $(pub fn $f(&self, v: $t, _o: Ordering) -> $t {
            mccore::point("atomic");
            self.0.$f(v, Ordering::SeqCst)
        })*
    };
}
macro_rules! atomic_int {
    ($name:ident, $std:ident, $t:ty) => {
        atomic!($name, $std, $t);
        impl $name {
            atomic!(@op $t: fetch_add, fetch_sub, fetch_max, fetch_min);
        }
    };
}
atomic_int!(AtomicUsize, AtomicUsize, usize);
atomic_int!(AtomicU64, AtomicU64, u64);
atomic!(AtomicBool, AtomicBool, bool);

mod ids {
    use super::*;
    atomic_int!(AtomicU32, AtomicU32, u32);
}

#[derive(Default)]
struct Ids {
    start: u32,
    passed: u32,
}

/// Start value of the next counters made by `AtomicU32::default()`.
pub fn set_counter_start(v: u32) {
    mccore::ext(|s: &mut Ids| s.start = v)
}

/// Moves all counters forward, as if `n` numbers had been taken from each of them.
pub fn advance_counters(n: u32) {
    mccore::ext(|s: &mut Ids| s.passed = s.passed.wrapping_add(n))
}

fn passed() -> u32 {
    if mccore::in_world() {
        mccore::ext(|s: &mut Ids| s.passed)
    } else {
        0
    }
}

/// The message id counter. It is bound to 32 bits by the protocol; scenarios can
/// let it start near the wrap-around instead of at 0, and move it forward.
#[derive(Debug)]
pub struct AtomicU32(ids::AtomicU32);

impl Default for AtomicU32 {
    fn default() -> Self {
        AtomicU32::new(0)
    }
}

impl From<u32> for AtomicU32 {
    fn from(v: u32) -> Self {
        Self::new(v)
    }
}

impl AtomicU32 {
    pub fn new(v: u32) -> Self {
        let s = if mccore::in_world() { mccore::ext(|s: &mut Ids| s.start) } else { 0 };
        AtomicU32(ids::AtomicU32::new(v.wrapping_add(s).wrapping_sub(passed())))
    }
    pub fn load(&self, o: Ordering) -> u32 {
        self.0.load(o).wrapping_add(passed())
    }
    pub fn store(&self, v: u32, o: Ordering) {
        self.0.store(v.wrapping_sub(passed()), o)
    }
    pub fn swap(&self, v: u32, o: Ordering) -> u32 {
        self.0.swap(v.wrapping_sub(passed()), o).wrapping_add(passed())
    }
    pub fn compare_exchange(&self, c: u32, n: u32, s: Ordering, f: Ordering) -> Result<u32, u32> {
        let p = passed();
        self.0
            .compare_exchange(c.wrapping_sub(p), n.wrapping_sub(p), s, f)
            .map(|x| x.wrapping_add(p))
            .map_err(|x| x.wrapping_add(p))
    }
    pub fn compare_exchange_weak(&self, c: u32, n: u32, s: Ordering, f: Ordering) -> Result<u32, u32> {
        self.compare_exchange(c, n, s, f)
    }
    pub fn fetch_add(&self, v: u32, o: Ordering) -> u32 {
        self.0.fetch_add(v, o).wrapping_add(passed())
    }
    pub fn fetch_sub(&self, v: u32, o: Ordering) -> u32 {
        self.0.fetch_sub(v, o).wrapping_add(passed())
    }
    fn modify(&self, f: impl Fn(u32) -> u32) -> u32 {
        mccore::point("atomic");
        let p = passed();
        let mut old = 0;
        let _ = self.0 .0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| {
            old = x.wrapping_add(p);
            Some(f(old).wrapping_sub(p))
        });
        old
    }
    pub fn fetch_max(&self, v: u32, _o: Ordering) -> u32 {
        self.modify(|x| x.max(v))
    }
    pub fn fetch_min(&self, v: u32, _o: Ordering) -> u32 {
        self.modify(|x| x.min(v))
    }
    pub fn fetch_and(&self, v: u32, _o: Ordering) -> u32 {
        self.modify(|x| x & v)
    }
    pub fn fetch_or(&self, v: u32, _o: Ordering) -> u32 {
        self.modify(|x| x | v)
    }
    pub fn fetch_xor(&self, v: u32, _o: Ordering) -> u32 {
        self.modify(|x| x ^ v)
    }
    pub fn fetch_update<F: FnMut(u32) -> Option<u32>>(&self, _s: Ordering, _f: Ordering, mut f: F) -> Result<u32, u32> {
        let mut prev = self.load(Ordering::SeqCst);
        while let Some(next) = f(prev) {
            match self.compare_exchange(prev, next, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) => return Ok(x),
                Err(p) => prev = p,
            }
        }
        Err(prev)
    }
    pub fn into_inner(self) -> u32 {
        self.0.into_inner().wrapping_add(passed())
    }
}

/// `std::sync::Mutex` whose `lock` is a scheduling point.
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);

impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> std::sync::LockResult<T> {
        self.0.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
        mccore::point("mutex");
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(g),
                Err(std::sync::TryLockError::Poisoned(e)) => return Err(e),
                Err(std::sync::TryLockError::WouldBlock) => {
                    if !mccore::block() {
                        return self.0.lock();
                    }
                }
            }
        }
    }
    pub fn try_lock(&self) -> std::sync::TryLockResult<std::sync::MutexGuard<'_, T>> {
        mccore::point("mutex");
        self.0.try_lock()
    }
    pub fn get_mut(&mut self) -> std::sync::LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
