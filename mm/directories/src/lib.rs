//! Stand-in for the `directories` crate (not available offline): the local data directory is the
//! scratch folder of the thread that asks for it, never the user's own.
use std::cell::RefCell;
use std::path::{Path, PathBuf};

thread_local! { static LOCAL: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }

/// Sets the local data directory of the current thread.
pub fn set_local(path: Option<PathBuf>) {
    LOCAL.with(|l| *l.borrow_mut() = path);
}

pub struct BaseDirs(PathBuf);

impl BaseDirs {
    pub fn new() -> Option<Self> {
        LOCAL.with(|l| l.borrow().clone()).map(BaseDirs)
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_dir(&self) -> &Path {
        &self.0
    }
    pub fn home_dir(&self) -> &Path {
        &self.0
    }
    pub fn config_dir(&self) -> &Path {
        &self.0
    }
    pub fn cache_dir(&self) -> &Path {
        &self.0
    }
}
