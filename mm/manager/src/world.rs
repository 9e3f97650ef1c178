//! A world for the mod manager: a mods folder, files to import, index files on a loopback server, a game
//! configuration; one life of the background thread in it, driven by a history of messages.
use crate::background_work::{background_work, BackgroundThreadData, BackgroundThreadMessage};
use crate::config::{GameConfig, IconData, InstallManager};
use crate::error::{ModLoaderError, ModLoaderWarning};
use crate::update_info::UpdateInfo;
use crate::version::GameBuild;
use crate::ModLoaderAppData;
use parking_lot::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::fs::{self, File};
use std::io::{BufReader, Cursor, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::{mpsc, Arc, OnceLock};
use std::time::Instant;
use unreal_asset::engine_version::EngineVersion;
use unreal_mod_integrator::{BakedMod, HandlerFn, IntegratorConfig, IntegratorMod};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader};

pub const GAME: &str = "ExampleGame";

#[derive(Debug)]
pub struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "boom")
    }
}
impl std::error::Error for Boom {}

pub struct Ic;
impl IntegratorConfig<'static, u32, Boom> for Ic {
    fn get_data(&self) -> &'static u32 {
        &7
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<u32, Boom>>> {
        // what the mods asked for, in order
        let mut h: HashMap<String, Box<HandlerFn<u32, Boom>>> = HashMap::new();
        h.insert(
            "rec".into(),
            Box::new(|_, pak, _, mods, asked| {
                pak.set_entry("record.txt".into(), format!("{} mods, {asked:?}", mods.len()).into_bytes());
                Ok(())
            }),
        );
        h
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<Boom>> {
        baked()
    }
    const GAME_NAME: &'static str = GAME;
    const INTEGRATOR_VERSION: &'static str = "0.0.1";
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}
pub fn baked() -> Vec<IntegratorMod<Boom>> {
    BAKED.with(|b| b.borrow().iter().map(|(id, data)| BakedMod { data, mod_id: id.to_string(), filename: if *id == "Kit" { "800-Kit-1.0.0_P.pak" } else { "801-Unused-1.0.0_P.pak" }, priority: 800, is_core: false }.into()).collect())
}
pub fn baked_bytes(id: &str) -> &'static [u8] {
    static B: OnceLock<std::sync::Mutex<HashMap<String, &'static [u8]>>> = OnceLock::new();
    B.get_or_init(Default::default).lock().unwrap().entry(id.to_string()).or_insert_with(|| pak(&[("metadata.json", format!("{{\"schema_version\":2,\"name\":\"{id}\",\"mod_id\":\"{id}\",\"version\":\"1.0.0\"}}").into_bytes())]).leak())
}
thread_local! { pub static BAKED: std::cell::RefCell<Vec<(&'static str, &'static [u8])>> = const { std::cell::RefCell::new(vec![]) }; }

#[derive(Debug, Clone, Default)]
pub struct Platform {
    pub install: Option<PathBuf>,
    pub paks: Option<PathBuf>,
    pub build: Option<(usize, usize, usize, usize)>,
    /// where native libraries go
    pub native: PathBuf,
}
impl unreal_cpp_bootstrapper::CppLoaderInstallExtension<ModLoaderWarning> for Platform {
    fn get_config_location(&self) -> Result<PathBuf, ModLoaderWarning> {
        Ok(self.native.join("config.json"))
    }
    fn get_extract_path(&self) -> Result<PathBuf, ModLoaderWarning> {
        Ok(self.native.join("mods"))
    }
    fn prepare_load(&self) -> Result<(), ModLoaderWarning> {
        Ok(())
    }
    fn load(&self) -> Result<(), ModLoaderWarning> {
        Ok(())
    }
    fn remove(&self) {}
}
impl InstallManager for Platform {
    fn get_game_install_path(&self) -> Option<PathBuf> {
        self.install.clone()
    }
    fn get_paks_path(&self) -> Option<PathBuf> {
        self.paks.clone()
    }
    fn get_game_build(&self) -> Option<GameBuild> {
        self.build.map(|b| GameBuild::new(b.0, b.1, b.2, b.3))
    }
    fn launch_game(&self) -> Result<(), ModLoaderWarning> {
        Ok(())
    }
}
type Update = Box<dyn FnMut(Box<dyn Fn(f32)>) -> Result<(), ModLoaderError>>;
thread_local! { /// what an update of the program does
    pub static UPDATE: std::cell::RefCell<Option<Update>> = const { std::cell::RefCell::new(None) }; }
pub struct Gc(pub Ic);
impl GameConfig<'static, Ic, u32, Boom> for Gc {
    fn get_integrator_config(&self) -> &Ic {
        &self.0
    }
    fn get_game_build(&self, _: &Path) -> Option<GameBuild> {
        None
    }
    fn get_install_managers(&self) -> BTreeMap<&'static str, Box<dyn InstallManager>> {
        BTreeMap::new()
    }
    fn get_newer_update(&self) -> Result<Option<UpdateInfo>, ModLoaderError> {
        Ok(None)
    }
    fn update_modloader(&self, progress: Box<dyn Fn(f32)>) -> Result<(), ModLoaderError> {
        UPDATE.with(|u| u.borrow_mut().as_mut().map(|f| f(progress))).unwrap_or(Ok(()))
    }
    fn get_icon(&self) -> Option<IconData> {
        None
    }
    fn get_cpp_loader_config() -> unreal_cpp_bootstrapper::config::GameSettings {
        Default::default()
    }
    const WINDOW_TITLE: &'static str = "t";
    const CONFIG_DIR: &'static str = "c";
    const CRATE_VERSION: &'static str = "1";
    const ABOUT_TEXT: &'static str = "a";
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicI32 = AtomicI32::new(0);
        let p = std::env::temp_dir().join(format!("mc-{tag}-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn mods(&self) -> PathBuf {
        self.0.join("local").join(GAME).join("Saved").join("Mods")
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
pub type Files = BTreeMap<String, Vec<u8>>;
pub fn snapshot(d: &Path) -> Files {
    fs::read_dir(d).map(|r| r.map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().to_string(), fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default()
}
pub fn pak(files: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut m = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    for (n, d) in files {
        m.set_entry(n.to_string(), d.clone());
    }
    let mut c = Cursor::new(vec![]);
    m.write(&mut c).unwrap();
    c.into_inner()
}

/// Something the window does with the data, at the `at`-th moment at which the background thread does not hold it.
pub struct Ui<'a> {
    pub at: usize,
    pub act: &'a dyn Fn(&mut ModLoaderAppData),
    /// asks for an integration afterwards
    pub follow: bool,
}
pub struct Life {
    pub data: Arc<Mutex<ModLoaderAppData>>,
    /// number of moments at which the window could have acted
    pub moments: usize,
    pub ui_done: bool,
    pub working: bool,
}

/// Runs the background thread from its start over the messages to its end.
pub fn live(s: &Scratch, platforms: &[(&'static str, Platform)], messages: Vec<BackgroundThreadMessage>, ui: Option<Ui>) -> Result<Life, String> {
    live_on(s, platforms.iter().map(|(n, p)| (*n, Box::new(p.clone()) as Box<dyn InstallManager>)).collect(), Default::default(), messages, ui)
}
pub fn live_on(s: &Scratch, install_managers: BTreeMap<&'static str, Box<dyn InstallManager>>, cpp_loader_config: unreal_cpp_bootstrapper::config::GameSettings, messages: Vec<BackgroundThreadMessage>, ui: Option<Ui>) -> Result<Life, String> {
    let data = Arc::new(Mutex::new(ModLoaderAppData { refuse_mismatched_connections: true, install_managers, cpp_loader_config, ..Default::default() }));
    let working = Arc::new(AtomicBool::new(true));
    let ready = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel();
    messages.into_iter().for_each(|m| tx.send(m).unwrap());
    let follow = ui.as_ref().is_some_and(|u| u.follow);
    if !follow {
        tx.send(BackgroundThreadMessage::Exit).unwrap();
    }
    // if the moment never comes, nobody else ends the thread
    let (over, wait) = mpsc::channel::<()>();
    if follow {
        let tx = tx.clone();
        std::thread::spawn(move || {
            if wait.recv_timeout(std::time::Duration::from_secs(20)) == Err(mpsc::RecvTimeoutError::Timeout) {
                let _ = tx.send(BackgroundThreadMessage::Exit);
            }
        });
    }
    let t = BackgroundThreadData {
        data: data.clone(),
        use_cpp_loader: false,
        ready_exit: ready.clone(),
        last_integration_time: Arc::new(Mutex::new(Instant::now())),
        working: working.clone(),
        newer_update: Arc::new(Mutex::new(None)),
        should_update: Arc::new(AtomicBool::new(false)),
        update_progress: Arc::new(AtomicI32::new(0)),
    };
    let moments = Rc::new(Cell::new(0));
    let done = Rc::new(Cell::new(false));
    directories::set_local(Some(s.0.join("local")));
    {
        let (moments, done, data) = (moments.clone(), done.clone(), data.clone());
        // the hook lives only until the end of this function, the action longer
        let ui: Option<(usize, &'static dyn Fn(&mut ModLoaderAppData))> = ui.map(|u| (u.at, unsafe { std::mem::transmute::<&dyn Fn(&mut ModLoaderAppData), &'static dyn Fn(&mut ModLoaderAppData)>(u.act) }));
        parking_lot::set_hook(Some(Rc::new(move || {
            let Some(mut d) = data.try_lock() else { return };
            if let Some((at, act)) = &ui {
                if moments.get() == *at {
                    act(&mut d);
                    done.set(true);
                    if follow {
                        let _ = tx.send(BackgroundThreadMessage::Integrate(Instant::now()));
                        let _ = tx.send(BackgroundThreadMessage::Exit);
                    }
                }
            }
            moments.set(moments.get() + 1);
        })));
    }
    let r = mc::core::guard(|| background_work(Gc(Ic), t, rx));
    parking_lot::set_hook(None);
    drop(over);
    directories::set_local(None);
    r?.map_err(|e| e.to_string())?;
    if !ready.load(Ordering::Acquire) {
        return Err("the background thread ended without reporting it".into());
    }
    Ok(Life { data, moments: moments.get(), ui_done: done.get(), working: working.load(Ordering::Acquire) })
}

/// How the server answers for a path.
#[derive(Clone, Debug)]
pub enum Answer {
    Ok(Vec<u8>),
    Status(u16),
    Not(u16, Vec<u8>),
    /// announces more than it sends
    Cut(Vec<u8>),
    /// closes the connection without an answer
    Hang,
    Raw(Vec<u8>),
}
struct Server {
    port: u16,
    routes: std::sync::Mutex<HashMap<String, (Answer, usize)>>,
}
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("harness: no loopback network");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || serve(c));
            }
        });
        Server { port, routes: Default::default() }
    })
}
fn serve(mut c: TcpStream) {
    let mut b = vec![];
    let mut x = [0; 512];
    while !b.windows(4).any(|w| w == b"\r\n\r\n") {
        match c.read(&mut x) {
            Ok(n) if n > 0 => b.extend_from_slice(&x[..n]),
            _ => return,
        }
    }
    let path = String::from_utf8_lossy(&b).split(' ').nth(1).unwrap_or("").to_string();
    let a = {
        let mut r = server().routes.lock().unwrap();
        r.get_mut(&path).map(|e| {
            e.1 += 1;
            e.0.clone()
        })
    };
    let head = |code: u16, len: usize| format!("HTTP/1.1 {code} X\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n");
    let _ = match a {
        Some(Answer::Ok(d)) => c.write_all(head(200, d.len()).as_bytes()).and_then(|_| c.write_all(&d)),
        Some(Answer::Status(s)) => c.write_all((head(s, 2) + "{}").as_bytes()),
        Some(Answer::Not(s, d)) => c.write_all(head(s, d.len()).as_bytes()).and_then(|_| c.write_all(&d)),
        Some(Answer::Cut(d)) => c.write_all(head(200, d.len() + 40).as_bytes()).and_then(|_| c.write_all(&d)),
        Some(Answer::Hang) => Ok(()),
        Some(Answer::Raw(d)) => c.write_all(&d),
        None => c.write_all((head(404, 2) + "{}").as_bytes()),
    };
}
/// A part of the server that belongs to one case.
pub struct Site(String);
impl Site {
    pub fn new() -> Site {
        static N: AtomicI32 = AtomicI32::new(0);
        Site(format!("/s{}", N.fetch_add(1, Ordering::Relaxed)))
    }
    pub fn url(&self, name: &str) -> String {
        format!("http://127.0.0.1:{}{}/{name}", server().port, self.0)
    }
    pub fn set(&self, name: &str, a: Answer) {
        server().routes.lock().unwrap().insert(format!("{}/{name}", self.0), (a, 0));
    }
    pub fn asked(&self, name: &str) -> usize {
        server().routes.lock().unwrap().get(&format!("{}/{name}", self.0)).map(|e| e.1).unwrap_or(0)
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        server().routes.lock().unwrap().retain(|k, _| !k.starts_with(&format!("{}/", self.0)));
    }
}
