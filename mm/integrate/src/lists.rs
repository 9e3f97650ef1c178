//! P25: the generated pak holds exactly the data of the mods that take part.
use crate::disk::Plan;
use crate::world::*;
use mc::core::*;
use mc::pkg::{deviations, Ch};
use serde_json::{json, Value};

fn field(m: &mut Value, c: &mut Ch, key: &str, vals: &[Option<&str>]) {
    match c.pick(vals.len() + 1) {
        0 => {}
        i => match vals[i - 1] {
            Some(s) => m[key] = json!(s),
            None => {
                m.as_object_mut().unwrap().remove(key);
            }
        },
    }
}
fn a_mod(c: &mut Ch, id: &str) -> Mod {
    let kind = c.of(&[Kind::File, Kind::Dynamic]);
    let mut m = meta(id);
    field(&mut m, c, "name", &[Some(""), Some("N\u{e4}me \u{1f600}"), Some("a\nb\"c\"")]);
    for k in ["author", "description", "game_build", "homepage"] {
        field(&mut m, c, k, &[None, Some(""), Some("\u{4e16}\u{754c}")]);
    }
    field(&mut m, c, "version", &[Some("10.20.30-rc.1")]);
    field(&mut m, c, "sync", &[None, Some("server"), Some("client"), Some("none")]);
    let v1 = c.pick(2) == 1;
    if v1 {
        m["schema_version"] = json!(1);
    }
    let mut i = json!({});
    for h in ["item_list_entries", "mission_trailheads"] {
        match c.pick(4) {
            0 => {}
            1 => i[h] = json!([id, 1]),
            2 => i[h] = json!({"of": id}),
            _ => i[h] = json!(id),
        }
    }
    if v1 {
        m.as_object_mut().unwrap().append(i.as_object_mut().unwrap());
    } else {
        m["integrator"] = i;
    }
    let files = (0..c.pick(2)).map(|k| (format!("Extra/{k}.txt"), id.as_bytes().to_vec())).collect();
    Mod { id: id.into(), kind, meta: m, files }
}
pub fn world(c: &mut Ch) -> World {
    let fault = c.of(&[Fault::None, Fault::ModPakCut, Fault::ModWithoutMetadata, Fault::ModBadMetadata, Fault::ModMissing, Fault::HandlerFails, Fault::DynamicFails, Fault::GamePakCut, Fault::NoGame, Fault::NoOutput]);
    let ids = c.of(&[vec!["Alpha", "Beta.x"], vec!["Alpha"], vec![], vec!["Zeta", "Alpha", "Mod2"], vec!["Beta", "Alpha"], vec!["SyncMode", "ListOfMods"]]);
    let mut mods: Vec<Mod> = ids.iter().map(|i| a_mod(c, i)).collect();
    let mut bakeds = vec![];
    for k in 0..c.of(&[0usize, 1, 2]) {
        let id = ["Core", "Baked"][k];
        let mut m = a_mod(c, id);
        m.kind = Kind::Baked;
        let core = c.of(&[true, false]) ^ (k == 1);
        // not asked for, asked for as the baked mod itself, or asked for by a mod file of that name
        match c.pick(4) {
            0 => {}
            1 => mods.insert(0, m.clone()),
            2 => mods.push(m.clone()),
            _ => mods.push(Mod { kind: Kind::Dynamic, ..m.clone() }),
        }
        bakeds.push((m, core));
    }
    let game = c.of(&[1usize, 2]);
    World {
        mods,
        baked: bakeds,
        handlers: c.of(&[vec!["item_list_entries"], vec![], vec!["item_list_entries", "mission_trailheads"], vec!["gamma"]]),
        refuse: c.of(&[true, false]),
        game: (0..game).map(|i| [(format!("Game/{i}.uasset"), vec![i as u8; 40])].into()).collect(),
        noise: c.of(&[false, true]),
        old: c.of(&[false, true]),
        fault,
    }
}
pub fn must_fail(w: &World) -> bool {
    let file = w.mods.iter().any(|m| m.kind == Kind::File);
    let dynamic = w.mods.iter().any(|m| m.kind == Kind::Dynamic);
    match w.fault {
        Fault::None => false,
        Fault::ModPakCut | Fault::ModWithoutMetadata | Fault::ModBadMetadata | Fault::ModMissing => file,
        Fault::HandlerFails => !w.mods.is_empty() && !w.handlers.is_empty(),
        Fault::DynamicFails => dynamic,
        Fault::GamePakCut => !w.mods.is_empty(),
        Fault::NoGame => true,
        Fault::NoOutput => !w.mods.is_empty(),
    }
}
pub fn run(ctx: &Ctx) {
    let k = ctx.pick(3, 4);
    ctx.bound(format!("every run of the integrator with at most {k} unusual choices: up to five mods (files, baked, dynamic), their metadata, handlers, game paks, an earlier pak, one fault"));
    ctx.assume("the starter assets are synthetic UE 4.23 packages of the same shape (the real ones are downloaded when the crate is built)");
    let mut all = vec![];
    deviations(k, &mut |c| {
        all.push(world(c));
        true
    });
    par_for(all.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let w = &all[i];
        let r = crate::world::run(w);
        ctx.state();
        ctx.step(1 + r.calls.len() as u64);
        ctx.trace();
        ctx.outcome(&format!("{} ({:?})", if r.result.is_ok() { "integrated" } else { "refused" }, w.fault));
        if let Some(e) = judge(w, &r, must_fail(w), &mut |_| None) {
            let m: Vec<String> = w.mods.iter().map(|m| format!("{:?} {} {}", m.kind, m.id, m.meta)).collect();
            ctx.violation(&format!("run {i}"), format!("mods: {}\nbaked: {:?}\nhandlers {:?} refuse {} old {} fault {:?}\n{e}", m.join("\n  "), w.baked.iter().map(|b| (&b.0.id, b.1)).collect::<Vec<_>>(), w.handlers, w.refuse, w.old, w.fault));
        }
    });
    disk(ctx);
}
/// The disk fails once, at every call in turn: no integration then claims to have succeeded and left something else.
fn disk(ctx: &Ctx) {
    let mut all = vec![];
    let k = ctx.pick(1, 2);
    ctx.bound(format!("every run with at most {k} unusual choices in which one call to the disk fails or writes only a part"));
    deviations(k, &mut |c| {
        let w = world(c);
        if w.fault == Fault::None && !w.mods.is_empty() {
            all.push(w);
        }
        true
    });
    par_for(all.len(), |i| {
        let w = &all[i];
        let (_, calls) = crate::world::run_on(w, Plan::Count);
        for (n, size) in calls.iter().enumerate() {
            for plan in [Plan::Fail(n, libc::ENOSPC), Plan::Fail(n, libc::EACCES), Plan::Short(n)] {
                if ctx.stopped() {
                    return;
                }
                if matches!(plan, Plan::Short(_)) && *size < 2 {
                    continue;
                }
                let (r, _) = run_on(w, plan);
                ctx.state();
                ctx.step(1 + n as u64);
                ctx.trace();
                let bad = match &r.result {
                    Err(e) if e.starts_with("panic") => Some(e.clone()),
                    Err(_) if matches!(plan, Plan::Short(_)) => Some("a partial write is taken for a failure".into()),
                    Err(_) if r.game_changed || r.mods_changed => Some("files of the game or of the mods were changed".into()),
                    Err(_) => None,
                    Ok(()) => {
                        judge(w, &r, false, &mut |_| None)
                    }
                };
                ctx.outcome(&format!("disk: {}", if r.result.is_ok() { "integrated" } else { "reported" }));
                if let Some(e) = bad {
                    let m: Vec<String> = w.mods.iter().map(|m| format!("{:?} {} {}", m.kind, m.id, m.meta)).collect();
                    ctx.violation(&format!("disk {i} {plan:?}"), format!("mods: {}\nbaked: {:?}\n{plan:?} of the disk calls {calls:?}\n{e}", m.join("\n  "), w.baked.iter().map(|b| (&b.0.id, b.1)).collect::<Vec<_>>()));
                }
            }
        }
    });
}
