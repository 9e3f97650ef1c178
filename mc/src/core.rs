//! Shared machinery: exploration context, bookkeeping, evidence and verdicts.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("MC_VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    /// distinct states / inputs / histories explored
    pub states: AtomicU64,
    /// steps (operations, reads, choices) executed on the implementation
    pub transitions: AtomicU64,
    /// complete executions of the real code compared with the oracle
    pub traces: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    nviol: AtomicUsize,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub stop: AtomicBool,
    start: Instant,
}

pub const MAX_VIOL: usize = 10;

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for l in s.lines() {
                // known: property=P01 key=<key> :: description
                if let Some(rest) = l.strip_prefix("known: property=") {
                    if let Some((p, rest)) = rest.split_once(" key=") {
                        if p == prop {
                            let (k, d) = rest.split_once(" :: ").unwrap_or((rest, ""));
                            known.push((k.to_string(), d.to_string()));
                        }
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Default::default(),
            samples: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
            violations: Default::default(),
            nviol: AtomicUsize::new(0),
            known,
            known_hit: Default::default(),
            stop: AtomicBool::new(false),
            start: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn state(&self) {
        self.states.fetch_add(1, Relaxed);
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }
    pub fn outcome(&self, k: &str) {
        let mut m = self.outcomes.lock().unwrap();
        *m.entry(k.to_string()).or_default() += 1;
    }
    pub fn outcome_n(&self, k: &str, n: u64) {
        let mut m = self.outcomes.lock().unwrap();
        *m.entry(k.to_string()).or_default() += n;
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let mut t = f();
            if t.len() > 400 {
                let mut i = 400;
                while !t.is_char_boundary(i) {
                    i -= 1;
                }
                t.truncate(i);
            }
            s.push(t);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }
    /// Report a violation. `key` identifies the specific input/history.
    pub fn violation(&self, key: &str, detail: String) {
        if self.known.iter().any(|(k, _)| k == key) {
            *self.known_hit.lock().unwrap().entry(key.to_string()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|(k, _)| k == key) {
            return;
        }
        let max = std::env::var("MC_MAX_VIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOL);
        if v.len() >= max {
            return;
        }
        v.push((key.to_string(), detail));
        if v.len() >= max {
            self.stop.store(true, Relaxed);
        }
        self.nviol.store(v.len(), Relaxed);
    }
    pub fn finish(self) -> i32 {
        let dir = verif_dir();
        let ev = dir.join("evidence");
        let _ = std::fs::create_dir_all(ev.join("replays"));
        let viol = self.violations.into_inner().unwrap();
        let mut vj = vec![];
        let mut code = 0;
        for (i, (k, d)) in viol.iter().enumerate() {
            let p = ev.join("replays").join(format!("{}-{}.txt", self.prop, i));
            let _ = std::fs::write(
                &p,
                format!("property: {}\nkey: {}\nrerun: bash {}/check.sh {} quick\n\n{}\n", self.prop, k, dir.display(), self.prop, d),
            );
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  {}: {}", k.chars().take(300).collect::<String>(), d.lines().take(12).collect::<Vec<_>>().join("\n    "));
            vj.push(serde_json::json!({"key": k, "replay": p.display().to_string(), "detail": d.chars().take(500).collect::<String>()}));
            code = 1;
        }
        let hits = self.known_hit.into_inner().unwrap();
        for (k, d) in &self.known {
            if hits.contains_key(k) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, k, d);
            }
        }
        let states = self.states.into_inner();
        let trans = self.transitions.into_inner();
        let traces = self.traces.into_inner();
        let outcomes = self.outcomes.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let bounds = self.bounds.into_inner().unwrap();
        let j = serde_json::json!({
            "property": self.prop, "tier": tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans,
                "traces_validated_against_impl": traces,
                "bounds": bounds.join("; "),
                "exhaustive": !self.stop.load(Relaxed),
                "violation_details": vj,
                "samples": self.samples.into_inner().unwrap(),
                "outcomes": outcomes,
                "known_findings_hit": hits,
            },
            "wall_s": wall,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "violations": viol.len(),
        });
        std::fs::write(ev.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
        println!(
            "{} {}: states={} transitions={} traces={} outcomes={:?} wall={:.1}s {}",
            self.prop, tier, states, trans, traces, outcomes, wall,
            if code == 0 { "OK" } else { "VIOLATED" }
        );
        if code == 0 && (states < 2 || traces < 1) {
            eprintln!("check error: vacuous exploration");
            return 3;
        }
        code
    }
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LASTPANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            LASTPANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
        } else {
            old(i)
        }
    }));
}

/// Run the code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LASTPANIC.with(|p| p.borrow().clone()))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 && i % 4 == 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", x));
        if i > 600 {
            s.push_str("...");
            break;
        }
    }
    s
}

/// Parallel for over 0..n.
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                    BEAT.fetch_add(1, Relaxed);
                })
                .unwrap();
        }
    });
}

/// Enumerate all sequences over 0..k of length exactly d (odometer).
pub fn all_seqs(k: usize, d: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut v = vec![0usize; d];
    loop {
        if !f(&v) {
            return;
        }
        let mut i = d;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

pub fn main(checks: &[(&str, fn(&Ctx))]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: <property> <quick|thorough>");
        std::process::exit(2);
    }
    let tier = match a[2].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => std::process::exit(2),
    };
    install_panic_hook();
    let ctx = Ctx::new(&a[1], tier);
    if let Some(why) = supervise() {
        ctx.violation("crash", why);
        std::process::exit(ctx.finish());
    }
    let mut ctx = std::sync::Arc::new(ctx);
    sampler(&ctx);
    match checks.iter().find(|c| c.0 == a[1]) {
        Some((_, f)) => {
            // run on a big stack: recursive parsers are explored deeply
            std::thread::scope(|s| {
                let h = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || f(&ctx)).unwrap();
                if let Err(p) = h.join() {
                    // nothing panics on the unchanged tree: the code under test did what the check relies on it not to do
                    let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ctx.violation("unguarded", format!("a panic outside of a guarded call: {msg}"));
                }
            });
        }
        None => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    }
    // the sampler only holds a weak reference
    let ctx = loop {
        match std::sync::Arc::try_unwrap(ctx) {
            Ok(c) => break c,
            Err(c) => ctx = c,
        }
    };
    std::process::exit(ctx.finish());
}

/// Advances whenever a case is done; see `supervise`.
pub static BEAT: AtomicU64 = AtomicU64::new(0);
static SHARED: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
const HANG_S: u64 = 90;

/// Forks: the child (None) explores, the parent waits for it and only returns when it died or no
/// case was finished for a long time, which on the unchanged tree does not happen.
fn supervise() -> Option<String> {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            return None;
        }
        SHARED.store(p as *mut AtomicU64, Relaxed);
        let beat = &*(p as *const AtomicU64);
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            return None;
        }
        let (mut last, mut since, mut longest) = (u64::MAX, Instant::now(), 0);
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                if std::env::var("MC_GAPS").is_ok() {
                    eprintln!("longest time between finished cases: {longest} s");
                }
                if libc::WIFEXITED(st) {
                    std::process::exit(libc::WEXITSTATUS(st));
                }
                return Some(format!("the process exploring the property died (wait status {st:#x}): abort, stack overflow or out of memory in the code under test"));
            }
            let b = beat.load(Relaxed);
            if b != last {
                (last, since) = (b, Instant::now());
            }
            longest = longest.max(since.elapsed().as_secs());
            if longest >= HANG_S {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return Some(format!("no case was finished within {HANG_S} s: the code under test does not terminate"));
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
    }
}
fn sampler(ctx: &std::sync::Arc<Ctx>) {
    let w = std::sync::Arc::downgrade(ctx);
    let p = SHARED.load(Relaxed);
    if p.is_null() {
        return;
    }
    let p: &'static AtomicU64 = unsafe { &*p };
    std::thread::spawn(move || loop {
        let Some(c) = w.upgrade() else { return };
        let sum = [&c.states, &c.transitions, &c.traces, &BEAT].iter().fold(0u64, |a, x| a.wrapping_add(x.load(Relaxed)));
        drop(c);
        p.store(sum, Relaxed);
        std::thread::sleep(std::time::Duration::from_millis(500));
    });
}
