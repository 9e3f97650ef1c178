//! P35: the background thread survives failures and ends only when it should.
use crate::background_work::{background_work, BackgroundThreadData, BackgroundThreadMessage as Msg};
use crate::disk::{Starts, STARTS};
use crate::error::ModLoaderError;
use crate::library::{meta, Body, F};
use crate::update_info::UpdateInfo;
use crate::world::*;
use crate::{FileToProcess, ModLoaderAppData};
use mc::core::*;
use parking_lot::Mutex;
use std::cell::{Cell, RefCell};
use std::fs;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::{mpsc, Arc};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Start {
    Fine,
    /// there is no folder for data of programs
    NoBase,
    /// the mods folder is a file
    ModsIsFile,
    /// so is the folder it belongs in
    GameIsFile,
    /// the mods folder cannot be created
    BaseIsFile,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Import,
    Remove,
    Write,
    Integrate,
    Launch,
    /// the update succeeds, and so does starting the new program
    Update,
    UpdateFails,
    /// the new program cannot be started
    StartFails,
    Exit,
}
const ALL: [M; 9] = [M::Import, M::Remove, M::Write, M::Integrate, M::Launch, M::Update, M::UpdateFails, M::StartFails, M::Exit];

fn life(ctx: &Ctx, start: Start, newer: bool, history: &[M]) -> Result<(), String> {
    ctx.state();
    ctx.trace();
    ctx.step(history.len() as u64 + 1);
    let s = Scratch::new("life");
    let from = s.0.join("from");
    fs::create_dir_all(&from).unwrap();
    let file = F::new("000-Aa-1.0.0_P.pak", Body::Meta(meta("Aa", "1.0.0", 0, None))).put(&from);
    let mods = s.mods();
    let blocked = match start {
        Start::Fine | Start::NoBase => None,
        Start::ModsIsFile => Some(mods.clone()),
        Start::GameIsFile => Some(s.0.join("local").join(GAME)),
        Start::BaseIsFile => Some(s.0.join("local")),
    };
    if let Some(b) = &blocked {
        fs::create_dir_all(b.parent().unwrap()).unwrap();
        fs::write(b, b"x").unwrap();
    }
    let data = Arc::new(Mutex::new(ModLoaderAppData { refuse_mismatched_connections: true, ..Default::default() }));
    let flag = |b| Arc::new(AtomicBool::new(b));
    let (working, ready, should) = (flag(true), flag(false), flag(false));
    let progress = Arc::new(AtomicI32::new(0));
    let newer_update = Arc::new(Mutex::new(newer.then(|| UpdateInfo::new("2.0.0".into(), "x".into()))));
    let (tx, rx) = mpsc::channel();
    for m in history {
        tx.send(match m {
            M::Import => Msg::Import(vec![FileToProcess::new(file.clone(), true)]),
            M::Remove => Msg::RemoveMod("Aa".into()),
            M::Write => Msg::WriteConfig,
            M::Integrate => Msg::integrate(),
            M::Launch => Msg::LaunchGame,
            M::Update | M::UpdateFails | M::StartFails => Msg::UpdateApp,
            M::Exit => Msg::Exit,
        })
        .unwrap();
    }
    drop(tx);
    let plan: Vec<M> = history.iter().copied().filter(|m| matches!(m, M::Update | M::UpdateFails | M::StartFails)).collect();
    let updates = Rc::new(Cell::new(0));
    let wrong: Rc<RefCell<Option<String>>> = Default::default();
    STARTS.with(|s| *s.borrow_mut() = Some(Starts { programs: vec![], results: plan.iter().filter(|m| **m != M::UpdateFails).map(|m| if *m == M::StartFails { libc::ENOENT } else { 0 }).collect() }));
    {
        let (plan, updates, wrong, shown, newer) = (plan.clone(), updates.clone(), wrong.clone(), progress.clone(), newer_update.clone());
        UPDATE.with(|u| {
            *u.borrow_mut() = Some(Box::new(move |say| {
                let n = updates.replace(updates.get() + 1);
                for p in [0.0f32, 0.01, 0.256, 0.5, 0.999, 1.0] {
                    say(p);
                    let want = (p * 100.0).round() as i32;
                    if shown.load(Ordering::Acquire) != want {
                        wrong.borrow_mut().get_or_insert(format!("progress {p} is shown as {} of 100", shown.load(Ordering::Acquire)));
                    }
                }
                // the window draws the update meanwhile
                if newer.try_lock().is_none() {
                    wrong.borrow_mut().get_or_insert("the window cannot be drawn during the update".into());
                }
                match plan.get(n) {
                    Some(M::UpdateFails) => Err(ModLoaderError::other("no update".into())),
                    _ => Ok(()),
                }
            }))
        });
    }
    directories::set_local((start != Start::NoBase).then(|| s.0.join("local")));
    let t = BackgroundThreadData {
        data: data.clone(),
        use_cpp_loader: false,
        ready_exit: ready.clone(),
        last_integration_time: Arc::new(Mutex::new(Instant::now())),
        working: working.clone(),
        newer_update: newer_update.clone(),
        should_update: should.clone(),
        update_progress: progress.clone(),
    };
    let r = guard(|| background_work(Gc(Ic), t, rx));
    directories::set_local(None);
    UPDATE.with(|u| *u.borrow_mut() = None);
    let starts = STARTS.with(|s| s.borrow_mut().take()).unwrap();
    r.map_err(|e| format!("the background thread panics: {e}"))?.map_err(|e| e.to_string())?;
    if let Some(w) = wrong.borrow().clone() {
        return Err(w);
    }
    // what should have happened
    let mut listed = false;
    let mut reports = 0usize;
    let (mut asked, mut begun) = (0, 0);
    let mut left = plan.iter();
    for m in history {
        match m {
            M::Import => {
                listed |= start == Start::Fine;
                reports += (start != Start::Fine) as usize;
            }
            M::Remove => listed = false,
            M::Write | M::Integrate => {}
            M::Launch => reports += 1,
            M::Update | M::UpdateFails | M::StartFails => {
                if newer {
                    let p = *left.next().unwrap();
                    asked += 1;
                    begun += (p != M::UpdateFails) as usize;
                    if p == M::Update {
                        break;
                    }
                    reports += 1;
                }
            }
            M::Exit => break,
        }
    }
    if !ready.load(Ordering::Acquire) {
        return Err("the thread ended without saying so: the window cannot be closed".into());
    }
    if working.load(Ordering::Acquire) {
        return Err("the manager stays busy".into());
    }
    let d = data.lock();
    if d.error.is_some() != (start != Start::Fine) {
        return Err(format!("start {start:?}: error {:?}", d.error.as_ref().map(|e| e.to_string())));
    }
    if start == Start::NoBase {
        // nothing can be done, but nothing may be lost either
        return if snapshot(&s.0).len() == 1 { Ok(()) } else { Err("files were written although there is no place for them".into()) };
    }
    if let Some(b) = &blocked {
        if fs::read(b).ok().as_deref() != Some(b"x") {
            return Err("the file in the way was changed".into());
        }
    }
    if (updates.get(), starts.programs.len()) != (asked, begun) {
        return Err(format!("{} updates, {} starts of the new program; expected {asked} and {begun}", updates.get(), starts.programs.len()));
    }
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    if let Some(p) = starts.programs.iter().find(|p| **p != me) {
        return Err(format!("{p} was started instead of the manager"));
    }
    let ids: Vec<&String> = d.game_mods.keys().collect();
    if ids != if listed { vec!["Aa"] } else { vec![] } {
        return Err(format!("listed mods {ids:?}, expected {}", if listed { "Aa" } else { "none" }));
    }
    if mods.join("000-Aa-1.0.0_P.pak").exists() != listed {
        return Err("the mods folder does not agree with the list".into());
    }
    if d.warnings.len() != reports {
        return Err(format!("{} warnings, expected {reports}: {:?}", d.warnings.len(), d.warnings.iter().map(|w| w.to_string()).collect::<Vec<_>>()));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    std::env::set_var("MC_UPDATED", "1");
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("5 ways to start (one good, four in which the mods folder cannot be used) x an update being known or not x all histories of 0..={depth} (one less for the bad starts) messages of {} kinds (import, remove, write settings, integrate, launch, an update that succeeds, fails, or whose new program does not start, exit); the end of the messages without exit", ALL.len()));
    ctx.assume("the new program is not really started, the call is recorded; what can still be done without a base folder is left open");
    for start in [Start::Fine, Start::NoBase, Start::ModsIsFile, Start::GameIsFile, Start::BaseIsFile] {
        for newer in [true, false] {
            let mut all: Vec<Vec<M>> = vec![];
            for d in 0..=if start == Start::Fine { depth } else { depth - 1 } {
                all_seqs(ALL.len(), d, |q| {
                    // behind an exit, one message shows that nothing is done any more
                    if !q.iter().rev().skip(2).any(|i| ALL[*i] == M::Exit) {
                        all.push(q.iter().map(|i| ALL[*i]).collect());
                    }
                    true
                });
            }
            par_for(all.len(), |i| {
                if ctx.stopped() {
                    return;
                }
                if let Err(e) = life(ctx, start, newer, &all[i]) {
                    let key: String = e.split([':', '[']).next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                    ctx.violation(&format!("{start:?} {key}"), format!("start {start:?}, update known: {newer}, messages {:?}: {e}", all[i]));
                }
            });
            ctx.outcome_n(&format!("{start:?}"), all.len() as u64);
        }
    }
}
