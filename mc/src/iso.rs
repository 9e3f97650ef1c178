//! Isolated exploration: every case runs in a forked worker with a bounded allocator, so that an
//! abort, a stack overflow, an endless loop or an absurd allocation of the code under test is an
//! observation (a violation for that very case) instead of the end of the check.
use crate::core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct LimitAlloc;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for LimitAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(Relaxed) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: LimitAlloc = LimitAlloc;

#[repr(C)]
struct Slot {
    cur: AtomicU64, // case being run + 1; 0 = none
    states: AtomicU64,
    trans: AtomicU64,
    traces: AtomicU64,
}

/// Largest single allocation a case may request.
pub const ALLOC_LIMIT: usize = 512 << 20;
const HANG_S: u64 = 20;

/// Run cases 0..n, `f` returning Some((key, detail)) on a violation; `name` describes a case that crashed.
pub fn isolated(ctx: &Ctx, n: usize, f: impl Fn(usize) -> Option<(String, String)> + Sync, name: impl Fn(usize) -> (String, String) + Sync) {
    let workers = 8usize.min(n.max(1));
    let bytes = std::mem::size_of::<Slot>() * workers;
    let shm = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, workers)
    };
    let base = (ctx.states.load(Relaxed), ctx.transitions.load(Relaxed), ctx.traces.load(Relaxed));
    let spawn = |w: usize, from: usize| -> (i32, std::fs::File) {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut out = std::fs::File::from_raw_fd(fds[1]);
                LIMIT.store(ALLOC_LIMIT, Relaxed);
                let s0 = (shm[w].states.load(Relaxed), shm[w].trans.load(Relaxed), shm[w].traces.load(Relaxed));
                let mut i = from;
                let mut nv = 0;
                ctx.outcomes.lock().unwrap().clear();
                while i < n && nv < MAX_VIOL {
                    shm[w].cur.store(i as u64 + 1, Relaxed);
                    let r = guard(|| f(i));
                    let v = match r {
                        Ok(v) => v,
                        Err(m) => {
                            let (k, d) = name(i);
                            Some((k, format!("{d}\n{m}")))
                        }
                    };
                    if let Some((k, d)) = v {
                        nv += if ctx.is_known(&k) { 0 } else { 1 };
                        let j = serde_json::json!({"k": k, "d": d});
                        let _ = writeln!(out, "{j}");
                    }
                    shm[w].states.store(s0.0 + ctx.states.load(Relaxed) - base.0, Relaxed);
                    shm[w].trans.store(s0.1 + ctx.transitions.load(Relaxed) - base.1, Relaxed);
                    shm[w].traces.store(s0.2 + ctx.traces.load(Relaxed) - base.2, Relaxed);
                    i += workers;
                }
                let o = ctx.outcomes.lock().unwrap().clone();
                let _ = writeln!(out, "{}", serde_json::json!({"o": o}));
                shm[w].cur.store(0, Relaxed);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            (pid, std::fs::File::from_raw_fd(fds[0]))
        }
    };
    std::thread::scope(|s| {
        // fork only from this thread; drain each pipe from a helper thread
        let mut live = vec![];
        let (tx, rx) = std::sync::mpsc::channel::<String>();
        let start = |w: usize, from: usize| {
            let (pid, mut file) = spawn(w, from);
            let tx = tx.clone();
            let h = s.spawn(move || {
                let mut t = String::new();
                let _ = file.read_to_string(&mut t);
                let _ = tx.send(t);
            });
            (pid, h, std::time::Instant::now(), 0u64)
        };
        for w in 0..workers {
            live.push(Some(start(w, w)));
        }
        let mut crashes = 0;
        loop {
            let mut any = false;
            for w in 0..workers {
                let Some((pid, _, since, last)) = &mut live[w] else { continue };
                any = true;
                let cur = shm[w].cur.load(Relaxed);
                if cur != *last {
                    *last = cur;
                    BEAT.fetch_add(1, Relaxed);
                    *since = std::time::Instant::now();
                }
                let mut st = 0;
                let hung = since.elapsed().as_secs() > HANG_S;
                if hung {
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
                let r = unsafe { libc::waitpid(*pid, &mut st, if hung { 0 } else { libc::WNOHANG }) };
                if r == 0 {
                    continue;
                }
                let (_, h, _, _) = live[w].take().unwrap();
                let _ = h.join();
                let clean = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                if !clean && cur > 0 {
                    let i = cur as usize - 1;
                    let (k, d) = name(i);
                    let why = if hung { format!("did not finish within {HANG_S} s") } else { format!("process died (wait status {st:#x}): abort, stack overflow or an allocation above {} MB", ALLOC_LIMIT >> 20) };
                    if !ctx.is_known(&k) {
                        crashes += 1;
                    }
                    ctx.violation(&k, format!("{d}\n{why}"));
                    if crashes < MAX_VIOL && i + workers < n {
                        live[w] = Some(start(w, i + workers));
                    }
                }
            }
            if !any {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        drop(start);
        drop(tx);
        for t in rx {
            for l in t.lines() {
                let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                if let Some(o) = j.get("o").and_then(|o| o.as_object()) {
                    for (k, v) in o {
                        ctx.outcome_n(k, v.as_u64().unwrap_or(0));
                    }
                } else {
                    ctx.violation(j["k"].as_str().unwrap_or(""), j["d"].as_str().unwrap_or("").to_string());
                }
            }
        }
    });
    for sl in shm {
        ctx.states.fetch_add(sl.states.load(Relaxed), Relaxed);
        ctx.transitions.fetch_add(sl.trans.load(Relaxed), Relaxed);
        ctx.traces.fetch_add(sl.traces.load(Relaxed), Relaxed);
    }
    unsafe { libc::munmap(shm.as_ptr() as *mut _, bytes) };
}
