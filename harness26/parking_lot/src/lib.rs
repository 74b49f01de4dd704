//! The locks of parking_lot with the scheduler of the engine (or of the replay) in place of the operating system's: a thread may be
//! interrupted before every attempt to take a lock, and one that has to wait hands over to the other. As in the original, a writer that
//! waits for readers keeps new readers out.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub use lock_api;

extern "C-unwind" {
    fn __sym_yield();
    fn __sym_block();
    fn __sym_wake();
}
fn may_switch() {
    unsafe { __sym_yield() }
}
fn wait(mut ready: impl FnMut() -> bool) {
    while !ready() {
        unsafe { __sym_block() }
    }
}
fn wake() {
    unsafe { __sym_wake() }
}

const WRITER: usize = 1;
const UPGRADABLE: usize = 2;
const READER: usize = 4;

pub struct RawRwLock {
    state: AtomicUsize,
}
impl RawRwLock {
    fn take(&self, unless: usize, add: usize) -> bool {
        let s = self.state.load(SeqCst);
        if s & unless != 0 {
            return false;
        }
        self.state.store(s + add, SeqCst);
        true
    }
    fn give(&self, sub: usize) {
        self.state.store(self.state.load(SeqCst) - sub, SeqCst);
        wake();
    }
    fn no_readers(&self) -> bool {
        self.state.load(SeqCst) < READER
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        may_switch();
        wait(|| self.take(WRITER, READER));
    }
    fn try_lock_shared(&self) -> bool {
        may_switch();
        self.take(WRITER, READER)
    }
    unsafe fn unlock_shared(&self) {
        self.give(READER);
    }
    fn lock_exclusive(&self) {
        may_switch();
        wait(|| self.take(WRITER | UPGRADABLE, WRITER));
        wait(|| self.no_readers());
    }
    fn try_lock_exclusive(&self) -> bool {
        may_switch();
        self.take(!0, WRITER)
    }
    unsafe fn unlock_exclusive(&self) {
        self.give(WRITER);
    }
    fn is_locked(&self) -> bool {
        may_switch();
        self.state.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        may_switch();
        self.state.load(SeqCst) & WRITER != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.give(READER);
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.give(WRITER);
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.store(self.state.load(SeqCst) + READER, SeqCst);
        self.give(WRITER);
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    // a wait may time out at once
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    // passes a writer that waits for readers, not one that holds the lock
    fn lock_shared_recursive(&self) {
        may_switch();
        wait(|| {
            let s = self.state.load(SeqCst);
            if s & WRITER != 0 && s < READER {
                return false;
            }
            self.take(0, READER)
        });
    }
    fn try_lock_shared_recursive(&self) -> bool {
        may_switch();
        let s = self.state.load(SeqCst);
        (s & WRITER == 0 || s >= READER) && self.take(0, READER)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        may_switch();
        wait(|| self.take(WRITER | UPGRADABLE, UPGRADABLE));
    }
    fn try_lock_upgradable(&self) -> bool {
        may_switch();
        self.take(WRITER | UPGRADABLE, UPGRADABLE)
    }
    unsafe fn unlock_upgradable(&self) {
        self.give(UPGRADABLE);
    }
    unsafe fn upgrade(&self) {
        may_switch();
        self.state.store(self.state.load(SeqCst) - UPGRADABLE + WRITER, SeqCst);
        wait(|| self.no_readers());
    }
    unsafe fn try_upgrade(&self) -> bool {
        may_switch();
        if !self.no_readers() {
            return false;
        }
        self.state.store(WRITER, SeqCst);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.state.store(self.state.load(SeqCst) + READER, SeqCst);
        self.give(UPGRADABLE);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.state.store(self.state.load(SeqCst) + UPGRADABLE, SeqCst);
        self.give(WRITER);
    }
}

pub struct RawMutex {
    state: AtomicUsize,
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        may_switch();
        wait(|| self.state.swap(1, SeqCst) == 0);
    }
    fn try_lock(&self) -> bool {
        may_switch();
        self.state.swap(1, SeqCst) == 0
    }
    unsafe fn unlock(&self) {
        self.state.store(0, SeqCst);
        wake();
    }
    fn is_locked(&self) -> bool {
        may_switch();
        self.state.load(SeqCst) != 0
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self);
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
