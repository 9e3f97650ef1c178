//! Descriptions of the cooked starter assets the integrator edits (the real ones come from a download at build time).
use crate::pkg::*;
use crate::simple::*;

/// Columns of the table of mods: the integrator fills them by position.
pub const COLUMNS: [&str; 8] = ["Name_3_A0", "Author_5_A1", "Description_9_A2", "Version_12_A3", "GameBuild_14_A4", "Sync_17_A5", "Homepage_20_A6", "Optional_23_A7"];

/// (name, author, description, version, build, sync enumerator, homepage)
pub type Row = [String; 7];
pub fn row(r: &Row) -> Vec<Prop> {
    let s = |i: usize, x: &str| prop(COLUMNS[i], Val::Str(Some(x.into())));
    vec![
        s(0, &r[0]),
        s(1, &r[1]),
        s(2, &r[2]),
        s(3, &r[3]),
        s(4, &r[4]),
        prop(COLUMNS[5], Val::Byte("SyncMode".into(), r[5].clone())),
        s(6, &r[6]),
        prop(COLUMNS[7], Val::Bool(true)),
    ]
}
pub fn list_of_mods(names: &NamesRef, v: &Ver, rows: &[((String, i32), Row)]) -> Pkg {
    let mut p = Pkg { uexp: true, ..Default::default() };
    p.imports = vec![
        imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"),
        imp("/Script/CoreUObject", "Class", -1, "DataTable"),
        imp("/Script/CoreUObject", "Package", 0, "/Game/Integrator/Mod"),
        imp("/Script/Engine", "UserDefinedStruct", -3, "Mod"),
        imp("/Script/Engine", "DataTable", -1, "Default__DataTable"),
    ];
    let own = [prop("RowStruct", Val::Obj(-4))];
    let rows: Vec<_> = rows.iter().map(|(n, r)| (n.clone(), row(r))).collect();
    p.exports.push(Exp { class: -2, template: -5, name: ("ListOfMods".into(), 0), flags: 9, body: data_table(names, v, &own, &rows), deps: [vec![], vec![-2, -5], vec![-4], vec![]], ..Default::default() });
    p.depends = Some(vec![vec![]]);
    p
}
pub fn statics(names: &NamesRef, v: &Ver, own: &[Prop]) -> Pkg {
    let mut p = Pkg { uexp: true, ..Default::default() };
    p.imports = vec![
        imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"),
        imp("/Script/CoreUObject", "Class", -1, "Thing"),
        imp("/Script/CoreUObject", "Class", -1, "Object"),
        imp("/Script/Engine", "Thing", -1, "Default__Thing"),
    ];
    let some = [prop("SomeValue", Val::Int(77)), prop("SomeName", Val::Name("NodeName".into(), 2))];
    for (i, n) in ["IntegratorStatics_BP", "Default__IntegratorStatics_BP_C", "Other", "Default__IntegratorStatics_BP"].iter().enumerate() {
        let body = if i == 1 { object(names, v, own) } else { object(names, v, &some[..1 + i % 2]) };
        p.exports.push(Exp { class: -2, template: -4, outer: if i == 0 { 0 } else { 1 }, name: (n.to_string(), 0), flags: 1, body, deps: [vec![], vec![-2, -4], vec![], vec![-1]], ..Default::default() });
    }
    p.depends = Some(vec![vec![]; 4]);
    p
}
/// The files handed to the integrator's build.
pub fn files() -> Vec<(String, Vec<u8>)> {
    let v = ue4_23();
    let example: Row = ["N", "A", "D", "V", "B", "SyncMode::NewEnumerator0", "H"].map(|s| s.to_string());
    let (l, _) = build(&v, &Table::Natural, &mut |n| list_of_mods(n, &v, &[(("NewRow".into(), 0), example.clone())])).unwrap();
    let (s, _) = build(&v, &Table::Natural, &mut |n| statics(n, &v, &[prop("IntegratorVersion", Val::Str(Some("0".into()))), prop("Extra", Val::Int(3))])).unwrap();
    let mut o = vec![];
    for (n, f) in [("ListOfMods", l), ("IntegratorStatics_BP", s)] {
        o.push((format!("{n}.uasset"), f.asset));
        o.push((format!("{n}.uexp"), f.uexp.unwrap()));
    }
    for n in ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"] {
        for e in ["uasset", "uexp"] {
            o.push((format!("{n}.{e}"), format!("cooked {n}.{e}").into_bytes()));
        }
    }
    o
}
