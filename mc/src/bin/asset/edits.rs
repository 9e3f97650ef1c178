//! P11: after any history of edits, saving gives exactly the edited package.
use mc::core::*;
use mc::pkg::*;
use mc::simple::{self, put_list, Prop, Val};
use mc::uasset::*;
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::flags::EObjectFlags;
use unreal_asset::properties::{int_property::IntProperty, object_property::ObjectProperty, str_property::StrProperty, Property, PropertyDataTrait};
use unreal_asset::types::{FName, PackageIndex};
use unreal_asset::unversioned::Ancestry;
use unreal_asset::Import;

#[derive(Clone, Debug)]
struct Obj {
    class: i32,
    outer: i32,
    template: i32,
    name: (String, i32),
    flags: u32,
    is_asset: bool,
    deps: [Vec<i32>; 4],
    props: Vec<Prop>,
    rows: Option<Vec<((String, i32), Vec<Prop>)>>,
}
#[derive(Clone, Debug)]
struct Model {
    table: Vec<String>,
    imports: Vec<Imp>,
    objs: Vec<Obj>,
    /// of the objects that were in the file; later ones have none
    depends: Vec<Vec<i32>>,
    folder: String,
    guid: [u8; 16],
    uexp: bool,
}
fn start(uexp: bool) -> Model {
    let p = simple::prop;
    let obj = |n: &str, props: Vec<Prop>| Obj { class: -2, outer: 0, template: -4, name: (n.into(), 0), flags: 1, is_asset: false, deps: [vec![], vec![-2], vec![-4], vec![]], props, rows: None };
    let row = |i: i32| vec![p("Amount", Val::Int(i)), p("Label", Val::Name("Thing".into(), i))];
    let mut first = obj("First", vec![
        p("Count", Val::Int(5)),
        p("Title", Val::Str(Some("hello".into()))),
        p("Tag", Val::Name("Thing".into(), 1)),
        p("Target", Val::Obj(2)),
        p("Inner", Val::Struct("MyStruct".into(), vec![p("Count", Val::Int(1)), p("Flag", Val::Bool(true))])),
    ]);
    first.is_asset = true;
    let mut second = obj("Second", vec![p("List", Val::Objs(vec![1, -1])), p("Kind", Val::Enum("EKind".into(), "EKind::One".into()))]);
    second.outer = 1;
    second.deps[3] = vec![1];
    let mut table = obj("Rows", vec![p("RowStruct", Val::Obj(-5))]);
    table.class = -3;
    table.rows = Some(vec![(("A".into(), 0), row(1)), (("B".into(), 2), row(2))]);
    Model {
        table: vec![],
        imports: vec![
            imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"),
            imp("/Script/CoreUObject", "Class", -1, "Thing"),
            imp("/Script/CoreUObject", "Class", -1, "DataTable"),
            imp("/Script/Engine", "Thing", -1, "Default__Thing"),
            imp("/Script/Engine", "UserDefinedStruct", -1, "MyRow"),
        ],
        objs: vec![first, second, table],
        depends: vec![vec![], vec![1], vec![-5, 2]],
        folder: "None".into(),
        guid: [7; 16],
        uexp,
    }
}
fn describe(m: &Model, names: &NamesRef, v: &Ver) -> Pkg {
    let mut p = Pkg { uexp: m.uexp, imports: m.imports.clone(), folder: m.folder.clone(), guid: m.guid, generations: 2, soft_refs: Some(vec!["/Game/Soft".into()]), ..Default::default() };
    for o in &m.objs {
        let mut w = W::new(names, v);
        put_list(&mut w, &o.props);
        w.ri32(0);
        if let Some(r) = &o.rows {
            w.ri32(r.len() as i32);
            for (n, l) in r {
                w.rname(&n.0, n.1);
                put_list(&mut w, l);
            }
        }
        p.exports.push(Exp { class: o.class, outer: o.outer, template: o.template, name: o.name.clone(), flags: o.flags, bools: [false, false, false, false, false, o.is_asset, false], deps: if m.uexp { o.deps.clone() } else { Default::default() }, body: w.b, ..Default::default() });
    }
    let mut d = m.depends.clone();
    d.resize(m.objs.len(), vec![]);
    p.depends = Some(d);
    p
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    SetInt,
    SetStr,
    SetWideStr,
    SetNewName,
    SetOldName,
    SetObject,
    SetNested,
    RemoveFirst,
    RemoveLast,
    InsertStr,
    PushInt,
    SetIndex,
    ListPush,
    ListClear,
    AddImport,
    PopImport,
    Rename,
    RenameExport,
    CopyExport,
    PopExport,
    SwapExports,
    SetFields,
    AddDependency,
    AddUnusedName,
    AddRow,
    RemoveRow,
    EditRow,
    Save,
    Reload,
    Rebuild,
    Header,
    RemoveAll,
}
use Op::*;
const OPS: [Op; 32] = [
    SetInt, SetStr, SetWideStr, SetNewName, SetOldName, SetObject, SetNested, RemoveFirst, RemoveLast, InsertStr, PushInt, SetIndex, ListPush, ListClear, AddImport, PopImport, Rename, RenameExport, CopyExport, PopExport, SwapExports, SetFields,
    AddDependency, AddUnusedName, AddRow, RemoveRow, EditRow, Save, Reload, Rebuild, Header, RemoveAll,
];
fn add(m: &mut Model, n: &str) {
    if !m.table.iter().any(|x| x == n) {
        m.table.push(n.into());
    }
}
fn rename(s: &mut String, from: &str, to: &str) {
    if s == from {
        *s = to.into();
    }
}
fn rename_prop(p: &mut Prop, a: &str, b: &str) {
    rename(&mut p.name.0, a, b);
    match &mut p.val {
        Val::Name(n, _) => rename(n, a, b),
        Val::Byte(x, y) | Val::Enum(x, y) => {
            rename(x, a, b);
            rename(y, a, b);
        }
        Val::Struct(t, l) => {
            rename(t, a, b);
            l.iter_mut().for_each(|p| rename_prop(p, a, b));
        }
        _ => {}
    }
}
/// Position of the first property of that kind in the first object.
fn at(m: &Model, f: &dyn Fn(&Val) -> bool) -> Option<usize> {
    m.objs.first().filter(|o| o.rows.is_none())?.props.iter().position(|p| f(&p.val))
}
fn pi(i: i32) -> PackageIndex {
    PackageIndex::new(i)
}
fn props(a: &mut A, e: usize) -> &mut Vec<Property> {
    &mut a.asset_data.exports[e].get_normal_export_mut().expect("not an ordinary object").properties
}
fn number(a: &A, n: &str, i: i32) -> FName {
    a.get_name_map().get_mut().add_fname_with_number(n, i)
}
/// Does the edit to both; Ok(false) when it does not apply.
fn apply(m: &mut Model, a: &mut A, op: Op, v: &Ver) -> Result<bool, String> {
    match op {
        SetInt => {
            let Some(i) = at(m, &|v| matches!(v, Val::Int(_))) else { return Ok(false) };
            m.objs[0].props[i].val = Val::Int(-99);
            let Property::IntProperty(p) = &mut props(a, 0)[i] else { return Err("no int property".into()) };
            p.value = -99;
        }
        SetStr | SetWideStr => {
            let s = if op == SetStr { "a longer text than before" } else { "w\u{ef}de \u{1f600}" };
            let Some(i) = at(m, &|v| matches!(v, Val::Str(_))) else { return Ok(false) };
            m.objs[0].props[i].val = Val::Str(Some(s.into()));
            let Property::StrProperty(p) = &mut props(a, 0)[i] else { return Err("no str property".into()) };
            p.value = Some(s.into());
        }
        SetNewName | SetOldName => {
            let n = if op == SetNewName { ("Fresh", 4) } else { ("First", 0) };
            let Some(i) = at(m, &|v| matches!(v, Val::Name(..))) else { return Ok(false) };
            add(m, n.0);
            m.objs[0].props[i].val = Val::Name(n.0.into(), n.1);
            let f = number(a, n.0, n.1);
            let Property::NameProperty(p) = &mut props(a, 0)[i] else { return Err("no name property".into()) };
            p.value = f;
        }
        SetObject => {
            let Some(i) = at(m, &|v| matches!(v, Val::Obj(_))) else { return Ok(false) };
            m.objs[0].props[i].val = Val::Obj(-1);
            let Property::ObjectProperty(p) = &mut props(a, 0)[i] else { return Err("no object property".into()) };
            p.value = pi(-1);
        }
        SetNested => {
            let Some(i) = at(m, &|v| matches!(v, Val::Struct(..))) else { return Ok(false) };
            let Val::Struct(_, l) = &mut m.objs[0].props[i].val else { unreachable!() };
            if l.len() < 2 {
                return Ok(false);
            }
            l.remove(0);
            l[0].val = Val::Bool(false);
            let Property::StructProperty(p) = &mut props(a, 0)[i] else { return Err("no struct property".into()) };
            p.value.remove(0);
            let Property::BoolProperty(b) = &mut p.value[0] else { return Err("no bool property".into()) };
            b.value = false;
        }
        RemoveFirst | RemoveLast => {
            if m.objs.is_empty() || m.objs[0].props.is_empty() {
                return Ok(false);
            }
            let i = if op == RemoveFirst { 0 } else { m.objs[0].props.len() - 1 };
            m.objs[0].props.remove(i);
            props(a, 0).remove(i);
        }
        InsertStr | PushInt => {
            if m.objs.is_empty() {
                return Ok(false);
            }
            let n = if op == InsertStr { "Note" } else { "Count" };
            add(m, n);
            let name = a.add_fname(n);
            if op == InsertStr {
                m.objs[0].props.insert(0, simple::prop(n, Val::Str(Some("n".into()))));
                props(a, 0).insert(0, StrProperty { name, ancestry: Ancestry::default(), property_guid: None, duplication_index: 0, value: Some("n".into()) }.into());
            } else {
                m.objs[0].props.push(Prop { name: (n.into(), 0), index: 1, guid: Some([9; 16]), val: Val::Int(8) });
                props(a, 0).push(IntProperty { name, ancestry: Ancestry::default(), property_guid: Some([9u8; 16].into()), duplication_index: 1, value: 8 }.into());
            }
        }
        SetIndex => {
            let Some(i) = at(m, &|v| matches!(v, Val::Int(_))) else { return Ok(false) };
            m.objs[0].props[i].index = 3;
            let Property::IntProperty(p) = &mut props(a, 0)[i] else { return Err("no int property".into()) };
            p.duplication_index = 3;
        }
        ListPush | ListClear => {
            let Some((e, i)) = m.objs.iter().enumerate().find_map(|(e, o)| o.props.iter().position(|p| matches!(p.val, Val::Objs(_))).map(|i| (e, i))) else { return Ok(false) };
            let Val::Objs(l) = &mut m.objs[e].props[i].val else { unreachable!() };
            let Property::ArrayProperty(p) = &mut props(a, e)[i] else { return Err("no array property".into()) };
            if op == ListClear {
                l.clear();
                p.value.clear();
            } else {
                l.push(7);
                let name = p.name.clone();
                p.value.push(ObjectProperty { name, ancestry: Ancestry::default(), property_guid: None, duplication_index: 0, value: pi(7) }.into());
            }
        }
        AddImport => {
            add(m, "/Script/CoreUObject");
            add(m, "Class");
            add(m, "NewClass");
            m.imports.push(imp("/Script/CoreUObject", "Class", -1, "NewClass"));
            let i = Import { class_package: a.add_fname("/Script/CoreUObject"), class_name: a.add_fname("Class"), outer_index: pi(-1), object_name: a.add_fname("NewClass"), optional: false };
            let found = a.find_import(&i.class_package, &i.class_name, i.outer_index, &i.object_name);
            let known = m.imports[..m.imports.len() - 1].iter().position(|x| x.object_name.0 == "NewClass").map(|i| -(i as i32) - 1);
            if found != known {
                return Err(format!("find_import says {found:?}, not {known:?}"));
            }
            let got = a.add_import(i).index;
            if got != -(m.imports.len() as i32) {
                return Err(format!("add_import returned {got}"));
            }
        }
        PopImport => {
            if m.imports.len() < 6 {
                return Ok(false);
            }
            m.imports.pop();
            a.imports.pop();
        }
        Rename => {
            let Some(i) = m.table.iter().position(|n| n == "Count" || n == "Thing") else { return Ok(false) };
            let (from, to) = (m.table[i].clone(), format!("{}Renamed", m.table[i]));
            if m.table.contains(&to) {
                return Ok(false); // two entries of one text: the model cannot tell them apart
            }
            for o in &mut m.objs {
                rename(&mut o.name.0, &from, &to);
                o.props.iter_mut().for_each(|p| rename_prop(p, &from, &to));
                for (n, r) in o.rows.iter_mut().flatten() {
                    rename(&mut n.0, &from, &to);
                    r.iter_mut().for_each(|p| rename_prop(p, &from, &to));
                }
            }
            for x in &mut m.imports {
                for n in [&mut x.class_name.0, &mut x.class_package.0, &mut x.object_name.0] {
                    rename(n, &from, &to);
                }
            }
            m.table[i] = to.clone();
            *a.get_name_map().get_mut().get_name_reference_mut(i as i32) = to;
        }
        RenameExport => {
            if m.objs.is_empty() {
                return Ok(false);
            }
            add(m, "Other");
            m.objs[0].name = ("Other".into(), 3);
            let n = number(a, "Other", 3);
            a.asset_data.exports[0].get_base_export_mut().object_name = n;
        }
        CopyExport => {
            if m.objs.is_empty() || m.objs.len() > 5 {
                return Ok(false);
            }
            let c = m.objs[0].clone();
            m.objs.push(c);
            let c = a.asset_data.exports[0].clone();
            a.asset_data.exports.push(c);
        }
        PopExport => {
            if m.objs.is_empty() {
                return Ok(false);
            }
            m.objs.pop();
            a.asset_data.exports.pop();
        }
        SwapExports => {
            if m.objs.len() < 2 {
                return Ok(false);
            }
            m.objs.swap(0, 1);
            a.asset_data.exports.swap(0, 1);
        }
        SetFields => {
            let Some(o) = m.objs.last_mut() else { return Ok(false) };
            (o.outer, o.template, o.flags, o.is_asset) = (3, -2, 8, true);
            let b = a.asset_data.exports.last_mut().unwrap().get_base_export_mut();
            b.outer_index = pi(3);
            b.template_index = pi(-2);
            b.object_flags = EObjectFlags::from_bits(8).unwrap();
            b.is_asset = true;
        }
        AddDependency => {
            if !m.uexp {
                return Ok(false); // preload dependencies only exist in split packages
            }
            let Some(o) = m.objs.last_mut() else { return Ok(false) };
            o.deps[0].push(2);
            o.deps[3].push(-3);
            let b = a.asset_data.exports.last_mut().unwrap().get_base_export_mut();
            b.serialization_before_serialization_dependencies.push(pi(2));
            b.create_before_create_dependencies.push(pi(-3));
        }
        AddUnusedName => {
            add(m, "Unused");
            let i = a.add_name_reference("Unused".into(), false);
            if m.table.get(i as usize).map(|s| &s[..]) != Some("Unused") || a.search_name_reference("Unused") != Some(i) {
                return Err(format!("add_name_reference returned {i}"));
            }
        }
        AddRow | RemoveRow | EditRow => {
            let Some(e) = m.objs.iter().position(|o| o.rows.is_some()) else { return Ok(false) };
            let rows = m.objs[e].rows.as_mut().unwrap();
            if rows.is_empty() {
                return Ok(false);
            }
            let Export::DataTableExport(t) = &mut a.asset_data.exports[e] else { return Err("no data table".into()) };
            match op {
                AddRow => {
                    let mut r = rows[0].clone();
                    r.0 = ("B".into(), 9);
                    rows.push(r);
                    let mut r = t.table.data[0].clone();
                    add(m, "B");
                    r.name = number(a, "B", 9);
                    let Export::DataTableExport(t) = &mut a.asset_data.exports[e] else { unreachable!() };
                    t.table.data.push(r);
                }
                RemoveRow => {
                    rows.remove(0);
                    t.table.data.remove(0);
                }
                _ => {
                    let l = &mut rows[0].1;
                    if l.len() < 2 {
                        return Ok(false);
                    }
                    l.pop();
                    l[0].val = Val::Int(1000);
                    let r = &mut t.table.data[0].value;
                    r.pop();
                    let Some(Property::IntProperty(p)) = r.first_mut() else { return Err("no int property".into()) };
                    p.value = 1000;
                }
            }
        }
        Save => {
            let x = compare(m, a, v)?;
            if write(a)? != x {
                return Err("saving twice differs".into());
            }
        }
        Reload => {
            let (f, u) = compare(m, a, v)?;
            *a = parse_bytes(&f, u.as_deref(), v.engine)?;
            if !m.uexp {
                // such packages store no dependencies
                m.objs.iter_mut().for_each(|o| o.deps = Default::default());
            }
            m.depends.resize(m.objs.len(), vec![]);
        }
        Rebuild => a.rebuild_name_map(),
        Header => {
            m.folder = "/Game/Folder".into();
            m.guid = [1; 16];
            a.folder_name = m.folder.clone();
            a.package_guid = [1u8; 16].into();
        }
        RemoveAll => {
            m.objs.clear();
            a.asset_data.exports.clear();
        }
    }
    Ok(true)
}
/// Saves and compares with the layout of the model; the names that saving added become part of the model.
fn compare(m: &mut Model, a: &A, v: &Ver) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let got = write(a).map_err(|e| format!("saving failed: {e}"))?;
    let t = table_of(a);
    if !t.starts_with(&m.table) {
        return Err(format!("names are {t:?}, were {:?}", m.table));
    }
    for (i, n) in t.iter().enumerate().skip(m.table.len()) {
        if t[..i].contains(n) || !(n.ends_with("Property") || n == "None") {
            return Err(format!("name {n:?} was added"));
        }
    }
    m.table = t;
    let Some((want, _)) = build(v, &Table::Exact(m.table.clone()), &mut |n| describe(m, n, v)) else { return Err(format!("names are missing: {:?}", m.table)) };
    match diff_files(&got, &want) {
        Some(d) => Err(d),
        None => Ok(got),
    }
}
/// Number of objects and imports, names, and the accessors by index.
fn look(m: &Model, a: &A) -> Option<String> {
    if a.asset_data.exports.len() != m.objs.len() || a.imports.len() != m.imports.len() {
        return Some("number of objects or imports".into());
    }
    for i in -(m.imports.len() as i32) - 2..=m.objs.len() as i32 + 2 {
        let e = a.get_export(pi(i)).map(|e| match fname(&e.get_base_export().object_name) {
            Tok::N(s, n) => (s, n),
            _ => unreachable!(),
        });
        let want = if i > 0 { m.objs.get(i as usize - 1).map(|o| o.name.clone()) } else { None };
        if e != want {
            return Some(format!("get_export({i}) is {e:?}, not {want:?}"));
        }
        let x = a.get_import(pi(i)).map(|x| x.object_name.get_owned_content());
        let want = if i < 0 { m.imports.get((-i - 1) as usize).map(|o| o.object_name.0.clone()) } else { None };
        if x != want {
            return Some(format!("get_import({i}) is {x:?}, not {want:?}"));
        }
    }
    for (o, e) in m.objs.iter().zip(&a.asset_data.exports) {
        let Some(n) = e.get_normal_export() else { return Some("an object lost its properties".into()) };
        let names: Vec<Tok> = n.properties.iter().map(|p| fname(&p.get_name())).collect();
        let want: Vec<Tok> = o.props.iter().map(|p| Tok::N(p.name.0.clone(), p.name.1)).collect();
        if names != want {
            return Some(format!("properties are {names:?}, not {want:?}"));
        }
    }
    None
}
fn history(ops: &[Op], m: &Model, f: &File, v: &Ver) -> (u64, Option<String>) {
    let mut n = 0;
    let r = guard(|| -> Result<bool, String> {
        let mut m = m.clone();
        let mut a = parse(f, v)?;
        for o in ops {
            n += 1;
            if !apply(&mut m, &mut a, *o, v).map_err(|e| format!("{o:?}: {e}"))? {
                return Ok(false);
            }
        }
        if let Some(e) = look(&m, &a) {
            return Err(e);
        }
        compare(&mut m, &a, v)?;
        Ok(true)
    });
    (n, r.and_then(|x| x).err())
}
fn synthetic(ctx: &Ctx) {
    let mut vers = vec![];
    let v23 = simple::ue4_23();
    vers.push((v23, true, ctx.pick(3, 4)));
    vers.push((Ver::versioned(V_LATEST, 0, &CV_LATEST), false, ctx.pick(3, 4)));
    vers.push((Ver::versioned(V_LATEST, 1000, &CV_LATEST), true, ctx.pick(2, 3)));
    vers.push((Ver::versioned(V_PROP_GUID, 0, &[]), false, ctx.pick(2, 3)));
    for (v, uexp, depth) in vers {
        for table in [Table::Natural, Table::Shuffled] {
            let depth = if table == Table::Natural { depth } else { depth - 1 };
            let mut m = start(uexp);
            let (f, _) = build(&v, &table, &mut |n| describe(&m, n, &v)).unwrap();
            m.table = f.names.clone();
            let total = (0..=depth).map(|d| OPS.len().pow(d as u32)).collect::<Vec<_>>();
            ctx.bound(format!("{}: every history of up to {depth} of {} edits ({:?})", v.tag(), OPS.len(), table));
            for (d, n) in total.iter().enumerate() {
                par_for(*n, |i| {
                    if ctx.stopped() {
                        return;
                    }
                    let mut k = i;
                    let ops: Vec<Op> = (0..d)
                        .map(|_| {
                            let o = OPS[k % OPS.len()];
                            k /= OPS.len();
                            o
                        })
                        .collect();
                    let (n, e) = history(&ops, &m, &f, &v);
                    ctx.state();
                    ctx.step(n);
                    ctx.trace();
                    if let Some(e) = e {
                        ctx.violation(&format!("{} {table:?} {ops:?}", v.tag()), e);
                    }
                });
            }
        }
    }
}
pub fn run(ctx: &Ctx) {
    synthetic(ctx);
    crate::samples::run(ctx);
}
