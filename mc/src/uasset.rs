//! Thin access to the code under test: parse, write and look at packages through the public API.
use crate::core::{guard, hex};
use crate::pkg::*;
use std::io::Cursor;
use unreal_asset_base::unversioned::Usmap;
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::types::{FName, PackageIndex};
use unreal_asset::Asset;
use unreal_asset_base::engine_version::EngineVersion;

pub type A = Asset<Cursor<Vec<u8>>>;

pub fn parse_bytes(asset: &[u8], uexp: Option<&[u8]>, engine: i32) -> Result<A, String> {
    parse_mapped(asset, uexp, engine, None)
}
pub fn parse_mapped(asset: &[u8], uexp: Option<&[u8]>, engine: i32, mappings: Option<Usmap>) -> Result<A, String> {
    let e = EngineVersion::try_from(engine).map_err(|_| "harness: engine".to_string())?;
    let (a, u) = (asset.to_vec(), uexp.map(|u| Cursor::new(u.to_vec())));
    match guard(move || Asset::new(Cursor::new(a), u, e, mappings)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
pub fn parse(f: &File, v: &Ver) -> Result<A, String> {
    parse_bytes(&f.asset, f.uexp.as_deref(), v.engine)
}
pub fn write(a: &A) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let ed = a.asset_data.use_event_driven_loader;
    match guard(|| {
        let mut o = Cursor::new(vec![]);
        let mut u = Cursor::new(vec![]);
        let r = a.write_data(&mut o, if ed { Some(&mut u) } else { None });
        r.map(|_| (o.into_inner(), if ed { Some(u.into_inner()) } else { None }))
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = i.saturating_sub(8);
    format!(
        "lengths {} vs {}, first difference at {i:#x}: got {} want {}",
        a.len(),
        b.len(),
        hex(&a[s.min(a.len())..(i + 24).min(a.len())]),
        hex(&b[s.min(b.len())..(i + 24).min(b.len())])
    )
}
/// None when equal.
pub fn diff_files(got: &(Vec<u8>, Option<Vec<u8>>), want: &File) -> Option<String> {
    if got.0 != want.asset {
        let i = got.0.iter().zip(&want.asset).position(|(x, y)| x != y).unwrap_or(0);
        let l = &want.layout;
        let part = if i < l.summary_end {
            "summary"
        } else if l.imports == 0 || i < l.imports {
            "names"
        } else if i < l.exports {
            "imports"
        } else if i < l.header_end {
            "export map or later tables"
        } else {
            "export data"
        };
        return Some(format!(".uasset ({part}): {}", first_diff(&got.0, &want.asset)));
    }
    match (&got.1, &want.uexp) {
        (Some(a), Some(b)) if a != b => Some(format!(".uexp: {}", first_diff(a, b))),
        (Some(_), None) | (None, Some(_)) => Some("uexp presence".into()),
        _ => None,
    }
}
pub fn fname(n: &FName) -> Tok {
    let num = match n {
        FName::Backed { number, .. } => *number,
        FName::Dummy { number, .. } => *number,
    };
    Tok::N(n.get_owned_content(), num)
}
pub fn variant(e: &Export<PackageIndex>) -> &'static str {
    match e {
        Export::BaseExport(_) => "Base",
        Export::ClassExport(_) => "Class",
        Export::EnumExport(_) => "Enum",
        Export::LevelExport(_) => "Level",
        Export::NormalExport(_) => "Normal",
        Export::PropertyExport(_) => "Property",
        Export::RawExport(_) => "Raw",
        Export::StringTableExport(_) => "StringTable",
        Export::StructExport(_) => "Struct",
        Export::UserDefinedStructExport(_) => "UserDefinedStruct",
        Export::FunctionExport(_) => "Function",
        Export::DataTableExport(_) => "DataTable",
        Export::WorldExport(_) => "World",
    }
}
/// Name table of an asset in memory.
pub fn table_of(a: &A) -> Vec<String> {
    let m = a.get_name_map();
    let r = m.get_ref().get_name_map_index_list().to_vec();
    r
}
/// Compare what the library read from the summary and tables with the description.
pub fn compare_tables(a: &A, f: &File, p: &Pkg, v: &Ver) -> Option<String> {
    macro_rules! ck {
        ($what:expr, $got:expr, $want:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return Some(format!("{}: read {:?}, file says {:?}", $what, g, w));
            }
        };
    }
    ck!("legacy version", a.legacy_file_version, v.legacy);
    ck!("object version", a.asset_data.object_version as i32, v.obj);
    ck!("UE5 object version", a.asset_data.object_version_ue5 as i32, v.ue5);
    ck!("unversioned", a.asset_data.summary.unversioned, v.unversioned);
    ck!("licensee version", a.asset_data.summary.file_licensee_version, p.licensee);
    ck!("package flags", a.asset_data.summary.package_flags.bits(), p.flags);
    ck!("folder name", a.folder_name.as_str(), p.folder.as_str());
    ck!("package guid", a.package_guid.0, p.guid);
    ck!("package source", a.package_source, p.source);
    ck!("generations", a.generations.iter().map(|g| (g.export_count, g.name_count)).collect::<Vec<_>>(), p.generation_counts(f.names.len()));
    ck!("name table", table_of(a), f.names.clone());
    ck!("event driven", a.asset_data.use_event_driven_loader, p.uexp);
    if !v.unversioned {
        let mut want: Vec<(Vec<u8>, i32)> = v.cv.iter().map(|(g, n)| (g.iter().flat_map(|x| x.to_le_bytes()).collect(), *n)).collect();
        let mut got: Vec<(Vec<u8>, i32)> = a.asset_data.summary.custom_versions.iter().map(|c| (c.guid.0.to_vec(), c.version)).collect();
        want.sort();
        got.sort();
        ck!("custom versions", got, want);
    }
    ck!("import count", a.imports.len(), p.imports.len());
    for (i, (g, w)) in a.imports.iter().zip(&p.imports).enumerate() {
        let n = |x: &(String, i32)| Tok::N(x.0.clone(), x.1);
        ck!(format!("import {i} class package"), fname(&g.class_package), n(&w.class_package));
        ck!(format!("import {i} class name"), fname(&g.class_name), n(&w.class_name));
        ck!(format!("import {i} outer"), g.outer_index.index, w.outer);
        ck!(format!("import {i} object name"), fname(&g.object_name), n(&w.object_name));
        ck!(format!("import {i} optional"), g.optional, w.optional && v.ue5 >= U_OPTIONAL);
        let via = a.get_import(PackageIndex::new(-(i as i32) - 1));
        ck!(format!("get_import {i}"), via.map(|m| fname(&m.object_name)), Some(n(&w.object_name)));
    }
    ck!("export count", a.asset_data.exports.len(), p.exports.len());
    for (i, (g, w)) in a.asset_data.exports.iter().zip(&p.exports).enumerate() {
        let g = g.get_base_export();
        ck!(format!("export {i} class"), g.class_index.index, w.class);
        ck!(format!("export {i} super"), g.super_index.index, w.sup);
        ck!(format!("export {i} template"), g.template_index.index, if v.obj >= V_TEMPLATE { w.template } else { 0 });
        ck!(format!("export {i} outer"), g.outer_index.index, w.outer);
        ck!(format!("export {i} name"), fname(&g.object_name), Tok::N(w.name.0.clone(), w.name.1));
        ck!(format!("export {i} object flags"), g.object_flags.bits(), w.flags);
        ck!(format!("export {i} size"), g.serial_size, w.body.len() as i64);
        ck!(format!("export {i} package flags"), g.package_flags, w.package_flags);
        let bools = [g.forced_export, g.not_for_client, g.not_for_server, g.is_inherited_instance, g.not_always_loaded_for_editor_game, g.is_asset, g.generate_public_hash];
        let mut wb = w.bools;
        wb[3] &= v.ue5 >= U_INHERITED;
        wb[4] &= v.obj >= V_LOAD_EDITOR_GAME;
        wb[5] &= v.obj >= V_IS_ASSET;
        wb[6] &= v.ue5 >= U_OPTIONAL;
        ck!(format!("export {i} booleans"), bools, wb);
        ck!(format!("export {i} guid"), g.package_guid.0, if v.ue5 < U_NO_GUID { w.guid } else { [0; 16] });
        let deps = [
            &g.serialization_before_serialization_dependencies,
            &g.create_before_serialization_dependencies,
            &g.serialization_before_create_dependencies,
            &g.create_before_create_dependencies,
        ];
        for k in 0..4 {
            let got: Vec<i32> = deps[k].iter().map(|x| x.index).collect();
            ck!(format!("export {i} dependency list {k}"), got, if p.uexp && v.obj >= V_PRELOAD { w.deps[k].clone() } else { vec![] });
        }
    }
    None
}
/// Bytes left over behind what the export parser understood.
pub fn extras(e: &Export<PackageIndex>) -> usize {
    e.get_normal_export().map(|n| n.extras.len()).unwrap_or(0)
}
