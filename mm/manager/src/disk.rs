
//! The disk as seen by the code under test: the calls the standard library makes are counted per thread, and an
//! explorer decides at which of them the machine stops or the disk fails.
use libc::{c_char, c_int, c_uint, c_void, size_t, ssize_t};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    /// only count
    Count,
    /// nothing from call k on reaches the disk; of call k itself the first `part` bytes do
    Crash(usize, usize),
    /// call k fails
    Fail(usize, c_int),
    /// of call k only a part is written, and that is said
    Short(usize),
}
thread_local! {
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// sizes of the writes, 0 for other calls
    static SIZES: Cell<Vec<usize>> = const { Cell::new(vec![]) };
}
/// Runs `f` under the plan and returns the calls it made (bytes of a write, 0 for others).
pub fn under<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, Vec<usize>) {
    SIZES.with(|s| s.set(vec![]));
    CALLS.with(|c| c.set(0));
    PLAN.with(|p| p.set(Some(plan)));
    let r = f();
    PLAN.with(|p| p.set(None));
    (r, SIZES.with(|s| s.take()))
}
enum Do {
    Real,
    Part(usize),
    Less(usize),
    Pretend,
    Error(c_int),
}
fn decide(bytes: usize) -> Do {
    let Ok(Some(plan)) = PLAN.try_with(|p| p.get()) else { return Do::Real };
    let k = CALLS.with(|c| c.replace(c.get() + 1));
    SIZES.with(|s| {
        let mut v = s.take();
        v.push(bytes);
        s.set(v);
    });
    match plan {
        Plan::Count => Do::Real,
        Plan::Crash(n, part) if k == n && part > 0 => Do::Part(part),
        Plan::Crash(n, _) if k >= n => Do::Pretend,
        Plan::Fail(n, e) if k == n => Do::Error(e),
        Plan::Short(n) if k == n && bytes > 1 => Do::Less(bytes / 2),
        _ => Do::Real,
    }
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
/// Whatever the code under test comes up with, only files below the scratch folders are written or removed.
static FENCE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
pub fn fence() {
    let tmp = std::env::temp_dir();
    let dirs = vec![tmp.join("mc-").to_string_lossy().to_string(), mc::core::verif_dir().join("evidence").to_string_lossy().to_string(), "/dev/null".into()];
    FENCE.set(dirs).unwrap();
}
unsafe fn allowed(dir: c_int, path: *const c_char) -> bool {
    let Some(dirs) = FENCE.get() else { return true };
    let p = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    let base = if p.starts_with('/') {
        String::new()
    } else if dir == libc::AT_FDCWD {
        std::env::current_dir().map(|d| d.to_string_lossy().to_string()).unwrap_or_default()
    } else {
        std::fs::read_link(format!("/proc/self/fd/{dir}")).map(|d| d.to_string_lossy().to_string()).unwrap_or_default()
    };
    let mut parts: Vec<&str> = vec![];
    let whole = format!("{base}/{p}");
    for c in whole.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let whole = format!("/{}", parts.join("/"));
    dirs.iter().any(|d| whole.starts_with(d))
}
unsafe fn open_(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let real = |p: *const c_char, f: c_int| libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, f, mode) as c_int;
    if flags & (libc::O_WRONLY | libc::O_RDWR) == 0 {
        return real(path, flags);
    }
    if !allowed(libc::AT_FDCWD, path) {
        return fail(libc::EACCES);
    }
    match decide(0) {
        Do::Real | Do::Part(_) | Do::Less(_) => real(path, flags),
        Do::Pretend => real(c"/dev/null".as_ptr(), libc::O_WRONLY),
        Do::Error(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let real = |n: size_t| libc::syscall(libc::SYS_write, fd, b, n) as ssize_t;
    // terminals, sockets and events are not the disk
    let mut st: libc::stat = std::mem::zeroed();
    if fd <= 2 || libc::fstat(fd, &mut st) != 0 || st.st_mode & libc::S_IFMT != libc::S_IFREG {
        return real(n);
    }
    match decide(n) {
        Do::Real => real(n),
        Do::Part(p) => {
            real(p.min(n));
            n as ssize_t
        }
        Do::Less(p) => real(p),
        Do::Pretend => n as ssize_t,
        Do::Error(e) => fail(e) as ssize_t,
    }
}
unsafe fn simple(real: impl Fn() -> c_int) -> c_int {
    match decide(0) {
        Do::Real | Do::Part(_) | Do::Less(_) => real(),
        Do::Pretend => 0,
        Do::Error(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !allowed(libc::AT_FDCWD, a) || !allowed(libc::AT_FDCWD, b) {
        return fail(libc::EACCES);
    }
    simple(|| libc::syscall(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if !allowed(libc::AT_FDCWD, a) {
        return fail(libc::EACCES);
    }
    simple(|| libc::syscall(libc::SYS_unlink, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, a: *const c_char, flags: c_int) -> c_int {
    if !allowed(dir, a) {
        return fail(libc::EACCES);
    }
    simple(|| libc::syscall(libc::SYS_unlinkat, dir, a, flags) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if !allowed(libc::AT_FDCWD, a) {
        return fail(libc::EACCES);
    }
    simple(|| libc::syscall(libc::SYS_rmdir, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    simple(|| libc::syscall(libc::SYS_ftruncate, fd, n) as c_int)
}
/// Copies inside the kernel are refused, so that the standard library copies with reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: size_t, _: c_uint) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: size_t) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: size_t, _: c_uint) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
/// Programs the code under test starts: they are recorded and not started.
#[derive(Default)]
pub struct Starts {
    pub programs: Vec<String>,
    /// how the next starts end (0: well)
    pub results: Vec<c_int>,
}
thread_local! { pub static STARTS: std::cell::RefCell<Option<Starts>> = const { std::cell::RefCell::new(None) }; }
type Spawn = unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int;
unsafe fn spawn(name: &std::ffi::CStr, pid: *mut libc::pid_t, path: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    let planned = STARTS.with(|s| {
        s.borrow_mut().as_mut().map(|s| {
            s.programs.push(std::ffi::CStr::from_ptr(path).to_string_lossy().to_string());
            match s.results.is_empty() {
                true => 0,
                false => s.results.remove(0),
            }
        })
    });
    match planned {
        Some(0) => {
            *pid = libc::pid_t::MAX;
            0
        }
        Some(e) => e,
        None => {
            let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
            if f.is_null() {
                return libc::ENOSYS;
            }
            std::mem::transmute::<*mut c_void, Spawn>(f)(pid, path, a, b, argv, env)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, path: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    spawn(c"posix_spawnp", pid, path, a, b, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut libc::pid_t, path: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    spawn(c"posix_spawn", pid, path, a, b, argv, env)
}
