//! Stand-in for `parking_lot` whose mutex is a scheduling point: before a thread takes a lock, the
//! hook installed for that thread runs, so that an explorer decides what other threads do there.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

thread_local! {
    static HOOK: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

/// Installs (or removes) the hook of the current thread.
pub fn set_hook(hook: Option<Rc<dyn Fn()>>) {
    HOOK.with(|h| *h.borrow_mut() = hook);
}

fn scheduling_point() {
    if INSIDE.with(|i| i.get()) {
        return;
    }
    if let Some(h) = HOOK.with(|h| h.borrow().clone()) {
        INSIDE.with(|i| i.set(true));
        h();
        INSIDE.with(|i| i.set(false));
    }
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(std::sync::MutexGuard<'a, T>);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        scheduling_point();
        // like parking_lot, no poisoning
        MutexGuard(self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        scheduling_point();
        match self.0.try_lock() {
            Ok(g) => Some(MutexGuard(g)),
            Err(std::sync::TryLockError::Poisoned(e)) => Some(MutexGuard(e.into_inner())),
            Err(std::sync::TryLockError::WouldBlock) => None,
        }
    }
    pub fn is_locked(&self) -> bool {
        matches!(self.0.try_lock(), Err(std::sync::TryLockError::WouldBlock))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner())
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub use std::sync::{Once, OnceState};
