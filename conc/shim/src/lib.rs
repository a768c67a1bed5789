//! Stand-in for `parking_lot` whose locks are operated by the controlled
//! scheduler in `ctl`. Same types and the same blocking rules (a waiting
//! writer keeps new readers out).

pub mod ctl;

pub use lock_api;

use ctl::{Kind, Lock};

pub struct RawRwLock(Lock);

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(Lock::new());
    type GuardMarker = lock_api::GuardNoSend;

    fn lock_shared(&self) {
        self.0.acquire(Kind::Read);
    }
    fn try_lock_shared(&self) -> bool {
        self.0.try_acquire(Kind::Read)
    }
    unsafe fn unlock_shared(&self) {
        self.0.release(Kind::Read);
    }
    fn lock_exclusive(&self) {
        self.0.acquire(Kind::Write);
    }
    fn try_lock_exclusive(&self) -> bool {
        self.0.try_acquire(Kind::Write)
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.release(Kind::Write);
    }
    fn is_locked(&self) -> bool {
        self.0.peek(false)
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.peek(true)
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.0.release(Kind::Read);
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.0.release(Kind::Write);
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.downgrade(Kind::Write, Kind::Read);
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.0.acquire(Kind::ReadAgain);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.0.try_acquire(Kind::ReadAgain)
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.0.acquire(Kind::Upgradable);
    }
    fn try_lock_upgradable(&self) -> bool {
        self.0.try_acquire(Kind::Upgradable)
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.release(Kind::Upgradable);
    }
    unsafe fn upgrade(&self) {
        self.0.upgrade();
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.0.try_upgrade()
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.0.release(Kind::Upgradable);
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.downgrade(Kind::Upgradable, Kind::Read);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.downgrade(Kind::Write, Kind::Upgradable);
    }
}

// A time-out may or may not expire first; the lock is tried once.
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_shared_for(&self, _: Self::Duration) -> bool {
        self.0.try_acquire(Kind::Read)
    }
    fn try_lock_shared_until(&self, _: Self::Instant) -> bool {
        self.0.try_acquire(Kind::Read)
    }
    fn try_lock_exclusive_for(&self, _: Self::Duration) -> bool {
        self.0.try_acquire(Kind::Write)
    }
    fn try_lock_exclusive_until(&self, _: Self::Instant) -> bool {
        self.0.try_acquire(Kind::Write)
    }
}

pub struct RawMutex(Lock);

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(Lock::new());
    type GuardMarker = lock_api::GuardNoSend;

    fn lock(&self) {
        self.0.acquire(Kind::Write);
    }
    fn try_lock(&self) -> bool {
        self.0.try_acquire(Kind::Write)
    }
    unsafe fn unlock(&self) {
        self.0.release(Kind::Write);
    }
    fn is_locked(&self) -> bool {
        self.0.peek(true)
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.release(Kind::Write);
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_for(&self, _: Self::Duration) -> bool {
        self.0.try_acquire(Kind::Write)
    }
    fn try_lock_until(&self, _: Self::Instant) -> bool {
        self.0.try_acquire(Kind::Write)
    }
}

pub struct RawThreadId;

unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}

pub type RawFairMutex = RawMutex;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
