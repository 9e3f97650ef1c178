//! Stand-in for the `steamlocate` crate (not available offline): the Steam installation is the one the current
//! thread was given.
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::PathBuf;

thread_local! { static STEAM: RefCell<Option<SteamDir>> = const { RefCell::new(None) }; }

pub fn set(s: Option<SteamDir>) {
    STEAM.with(|l| *l.borrow_mut() = s);
}
#[derive(Debug, Clone, Default)]
pub struct SteamApp {
    pub appid: u32,
    pub path: PathBuf,
}
#[derive(Debug, Clone, Default)]
pub struct SteamDir {
    pub path: PathBuf,
    pub installed: HashMap<u32, SteamApp>,
}
impl SteamDir {
    pub fn locate() -> Option<SteamDir> {
        STEAM.with(|l| l.borrow().clone())
    }
    pub fn app(&mut self, id: &u32) -> Option<&SteamApp> {
        self.installed.get(id)
    }
}
