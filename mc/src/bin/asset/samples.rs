//! P11, second part: single edits of every property of real game packages.
use mc::core::*;
use mc::uasset::*;
use std::path::{Path, PathBuf};
use unreal_asset::exports::{ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::PropertyDataTrait;

/// Packages under test: folder below tests/assets, engine version.
const FOLDERS: [(&str, i32); 15] = [
    ("general/Astroneer_prebulk", 25),
    ("general/BloodStained", 20),
    ("general/CodeVein", 20),
    ("general/Misc_426", 28),
    ("general/StarlitSeason", 26),
    ("general/Tekken", 16),
    ("general/Versioned", 0),
    ("general/npc_onop", 27),
    ("general/pseudoregalia", 31),
    ("custom_serialization_structs_in_map", 27),
    ("duplicate_name_map_entries", 27),
    ("unknown_properties", 27),
    ("improper_name_map_hashes", 27),
    ("ue5", 31),
    ("user_defined_struct", 28),
];
type Bytes = (Vec<u8>, Option<Vec<u8>>);
fn files() -> Vec<(PathBuf, Bytes, i32)> {
    let mut o = vec![];
    for (d, e) in FOLDERS {
        let dir = Path::new("/repo/unreal_asset/tests/assets").join(d);
        let mut l: Vec<_> = std::fs::read_dir(&dir).map(|r| r.filter_map(|x| x.ok()).map(|x| x.path()).collect()).unwrap_or_default();
        l.sort();
        for p in l {
            if matches!(p.extension().and_then(|e| e.to_str()), Some("uasset" | "umap")) {
                let (Ok(a), u) = (std::fs::read(&p), std::fs::read(p.with_extension("uexp")).ok()) else { continue };
                if a.len() < 200_000 {
                    o.push((p, (a, u), e));
                }
            }
        }
    }
    o
}
#[derive(Clone, Copy, Debug)]
enum Edit {
    None,
    Remove(usize, usize),
    Double(usize, usize),
    RemoveExport(usize),
    CopyExport(usize),
    Names,
}
/// Kind, name and properties of every object.
fn outline(a: &A) -> Vec<String> {
    a.asset_data
        .exports
        .iter()
        .map(|e| {
            let b = e.get_base_export();
            let props: Vec<String> = e.get_normal_export().map(|n| n.properties.iter().map(|p| format!("{:?} {}", fname(&p.get_name()), p.get_duplication_index())).collect()).unwrap_or_default();
            format!("{} {:?} {} {} {:?}", variant(e), fname(&b.object_name), b.class_index.index, b.outer_index.index, props)
        })
        .collect()
}
fn one(b: &Bytes, engine: i32, edit: Edit) -> Option<String> {
    let r = guard(|| -> Result<(), String> {
        let mut a = parse_bytes(&b.0, b.1.as_deref(), engine)?;
        let mut want = outline(&a);
        let mut undo: Option<Box<dyn FnOnce(&mut A)>> = None;
        match edit {
            Edit::None => undo = Some(Box::new(|_| {})),
            Edit::Names => {
                a.rebuild_name_map();
                undo = Some(Box::new(|_| {}));
            }
            Edit::Remove(e, i) => {
                let p = a.asset_data.exports[e].get_normal_export_mut().unwrap().properties.remove(i);
                want = outline(&a);
                undo = Some(Box::new(move |a| a.asset_data.exports[e].get_normal_export_mut().unwrap().properties.insert(i, p)));
            }
            Edit::Double(e, i) => {
                let l = &mut a.asset_data.exports[e].get_normal_export_mut().unwrap().properties;
                let p = l[i].clone();
                l.insert(i, p);
                want = outline(&a);
                undo = Some(Box::new(move |a| {
                    a.asset_data.exports[e].get_normal_export_mut().unwrap().properties.remove(i);
                }));
            }
            // the layout of maps and scripts depends on the other objects, so only the size is predictable
            Edit::RemoveExport(e) => {
                let x = a.asset_data.exports.remove(e);
                write(&a)?;
                undo = Some(Box::new(move |a| a.asset_data.exports.insert(e, x)));
                want.clear();
            }
            Edit::CopyExport(e) => {
                let x = a.asset_data.exports[e].clone();
                a.asset_data.exports.push(x);
                want = outline(&a);
            }
        }
        if !want.is_empty() {
            let w = write(&a)?;
            let c = parse_bytes(&w.0, w.1.as_deref(), engine).map_err(|e| format!("the edited package cannot be read: {e}"))?;
            let got = outline(&c);
            if got != want {
                let d = got.iter().zip(&want).find(|(a, b)| a != b);
                return Err(format!("the edited package reads {d:?}"));
            }
            if write(&c)? != w {
                return Err("the edited package changes when saved again".into());
            }
        }
        if let Some(u) = undo {
            u(&mut a);
            let w = write(&a)?;
            if (&w.0, &w.1) != (&b.0, &b.1) {
                return Err(format!("undone, the package differs: {} {}", first_diff(&w.0, &b.0), first_diff(&w.1.unwrap_or_default(), b.1.as_deref().unwrap_or_default())));
            }
        }
        Ok(())
    });
    r.and_then(|x| x).err()
}
pub fn run(ctx: &Ctx) {
    let files = files();
    // cost of exploring a package: its size times the number of edits; the quick tier leaves the dearest out
    let mut jobs = vec![];
    let mut whole = 0;
    let mut budget = ctx.pick(400_000_000, usize::MAX);
    for (f, (p, b, e)) in files.iter().enumerate() {
        jobs.push((f, Edit::None));
        jobs.push((f, Edit::Names));
        let Ok(Ok(a)) = guard(|| parse_bytes(&b.0, b.1.as_deref(), *e)) else {
            ctx.violation(&format!("sample {}", p.display()), "cannot be read".into());
            continue;
        };
        let mut mine = vec![];
        for (i, x) in a.asset_data.exports.iter().enumerate() {
            mine.push((f, Edit::RemoveExport(i)));
            mine.push((f, Edit::CopyExport(i)));
            for k in 0..x.get_normal_export().map(|n| n.properties.len()).unwrap_or(0) {
                mine.push((f, Edit::Remove(i, k)));
                mine.push((f, Edit::Double(i, k)));
            }
        }
        let cost = mine.len() * (b.0.len() + b.1.as_ref().map_or(0, |u| u.len()));
        if cost > budget / 4 {
            continue;
        }
        budget -= cost;
        whole += 1;
        jobs.extend(mine);
    }
    ctx.bound(format!("{} real packages read, saved, and saved with a rebuilt name map; for {whole} of them also removal and duplication of every property and object, alone ({} edits)", files.len(), jobs.len()));
    par_for(jobs.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let (f, edit) = jobs[i];
        let (p, b, e) = &files[f];
        ctx.state();
        ctx.step(2);
        ctx.trace();
        if let Some(x) = one(b, *e, edit) {
            ctx.violation(&format!("sample {} {edit:?}", p.display()), x);
        }
    });
}
