//! P26: persistent actors are placed into the maps that ask for them.
use crate::world::*;
use mc::core::*;
use mc::exports::walk_export;
use mc::pkg::*;
use mc::simple::*;
use mc::uasset::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::PackageIndex;

type Name = (String, i32);
/// (class of the class, package, name)
const CLASSES: [(&str, &str, &str); 4] = [
    ("/Script/CoreUObject.Class", "/Script/Engine", "SceneComponent"),
    ("/Script/CoreUObject.Class", "/Script/Engine", "StaticMeshComponent"),
    ("/Script/Engine.BlueprintGeneratedClass", "/Game/Stuff/Comp", "Comp_C"),
    ("/Script/CoreUObject.Class", "/Script/Other", "SceneComponent"),
];
#[derive(Clone, Debug)]
pub struct Node {
    pub name: Name,
    pub class: usize,
    pub children: Vec<usize>,
    /// listed among the nodes, but of another class
    pub foreign: bool,
}
#[derive(Clone, Debug)]
pub struct Actor {
    pub path: String,
    /// None: the actor has no construction script
    pub nodes: Option<Vec<Node>>,
    /// the imports of the asset come in reverse order
    pub reversed: bool,
    /// an object of a class of this very package comes first
    pub own_class: bool,
    pub bad_index: bool,
    /// the nodes are the first objects of the package
    pub nodes_first: bool,
}
fn name_prop(k: &str, n: &Name) -> Prop {
    prop(k, Val::Name(n.0.clone(), n.1))
}
/// The package of an actor's blueprint.
fn actor_pkg(names: &NamesRef, v: &Ver, a: &Actor) -> Pkg {
    let mut list: Vec<(&str, &str, &str, &str)> = vec![
        ("/Script/CoreUObject", "Package", "", "/Script/Engine"),
        ("/Script/CoreUObject", "Class", "/Script/Engine", "SimpleConstructionScript"),
        ("/Script/CoreUObject", "Class", "/Script/Engine", "SCS_Node"),
        ("/Script/CoreUObject", "Class", "/Script/Engine", "Thing"),
    ];
    for (cc, p, n) in CLASSES {
        let (cp, cn) = cc.split_once('.').unwrap();
        if !list.iter().any(|x| x.3 == p) {
            list.push(("/Script/CoreUObject", "Package", "", p));
        }
        list.push((cp, cn, p, n));
    }
    if a.reversed {
        list.reverse();
    }
    let index = |pkg: &str, n: &str| -> i32 { list.iter().position(|x| x.2 == pkg && x.3 == n).map(|i| -(i as i32) - 1).unwrap_or(0) };
    let mut p = Pkg { uexp: true, ..Default::default() };
    for (cp, cn, o, n) in &list {
        p.imports.push(imp(cp, cn, if o.is_empty() { 0 } else { index("", o) }, n));
    }
    let short = a.path.rsplit('/').next().unwrap();
    let thing = index("/Script/Engine", "Thing");
    let mut add = |class: i32, name: Name, body: Vec<u8>| {
        p.exports.push(Exp { class, name, flags: 1, body, ..Default::default() });
        p.exports.len() as i32
    };
    if a.own_class && !a.nodes_first {
        add(2, ("Self".into(), 0), object(names, v, &[prop("SomeValue", Val::Int(5))]));
    }
    if !a.nodes_first {
        add(thing, (format!("{short}_C"), 0), object(names, v, &[]));
    }
    if let Some(nodes) = &a.nodes {
        let first = if a.nodes_first { 1 } else { 2 + a.own_class as i32 + 1 };
        let mut all: Vec<i32> = (0..nodes.len() as i32).map(|i| first + i).collect();
        if a.bad_index {
            all.push(first + nodes.len() as i32 + 7);
        }
        let roots: Vec<i32> = all.iter().take(1).copied().collect();
        let script = (index("/Script/Engine", "SimpleConstructionScript"), ("SCS".to_string(), 0), object(names, v, &[prop("RootNodes", Val::Objs(roots)), prop("AllNodes", Val::Objs(all))]));
        if !a.nodes_first {
            add(script.0, script.1.clone(), script.2.clone());
        }
        for n in nodes {
            let class = index(CLASSES[n.class].1, CLASSES[n.class].2);
            let children = n.children.iter().map(|c| first + *c as i32).collect::<Vec<_>>();
            let mut l = vec![prop("ComponentClass", Val::Obj(class))];
            if !children.is_empty() {
                l.push(prop("ChildNodes", Val::Objs(children)));
            }
            l.push(prop("VariableGuid", Val::Int(4)));
            l.push(name_prop("InternalVariableName", &n.name));
            add(if n.foreign { thing } else { index("/Script/Engine", "SCS_Node") }, ("SCS_Node".into(), 1 + n.class as i32), object(names, v, &l));
        }
        if a.nodes_first {
            add(script.0, script.1, script.2);
        }
    }
    if a.nodes_first {
        add(thing, (format!("{short}_C"), 0), object(names, v, &[]));
    }
    p.depends = Some(vec![vec![]; p.exports.len()]);
    p
}
#[derive(Clone, Debug)]
pub struct Map {
    pub path: String,
    pub level: bool,
    /// its imports already include the component classes
    pub known: usize,
    pub actors: Vec<i32>,
    pub late: bool,
    pub uexp: bool,
    pub tag: i32,
}
fn map_pkg(names: &NamesRef, v: &Ver, m: &Map) -> Pkg {
    let mut p = Pkg { uexp: m.uexp, ..Default::default() };
    p.imports = vec![
        imp("/Script/CoreUObject", "Package", 0, "/Script/CoreUObject"),
        imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"),
        imp("/Script/CoreUObject", "Class", -2, if m.level { "Level" } else { "Plain" }),
        imp("/Script/CoreUObject", "Class", -2, "Info"),
    ];
    if m.known > 0 {
        // the second one has the same name in another package
        p.imports.push(imp("/Script/CoreUObject", "Class", if m.known == 2 { -1 } else { -2 }, "SceneComponent"));
    }
    let some = [prop("SomeValue", Val::Int(m.tag)), prop("SomeObject", Val::Obj(-4))];
    let mut w = W::new(names, v);
    put_list(&mut w, &[prop("LevelValue", Val::Name("Light".into(), 3))]);
    w.ri32(0);
    if m.level {
        w.ri32(m.actors.len() as i32);
        for a in &m.actors {
            w.ri32(*a);
        }
        for s in ["unreal", "", "/Game/Maps", ""] {
            put_fstring(&mut w.b, Some(s));
        }
        w.ri32(0);
        w.ri32(7777);
        w.ri32(1);
        for _ in 0..6 {
            w.ri32(0);
        }
    }
    let level = Exp { class: -3, name: ("PersistentLevel".into(), 0), flags: 8, body: w.b, deps: [vec![], vec![-3], vec![-4], vec![]], ..Default::default() };
    let info = Exp { class: -4, name: ("Info".into(), 0), flags: 1, body: object(names, v, &some), ..Default::default() };
    p.exports = if m.late { vec![info, level] } else { vec![level, info] };
    p.depends = Some(vec![vec![]; 2]);
    p
}
fn put_asset(files: &mut Files, path: &str, d: &mut dyn FnMut(&NamesRef, &Ver) -> Pkg, shuffled: bool) {
    let v = ue4_23();
    let t = if shuffled { Table::Shuffled } else { Table::Natural };
    let (f, _) = build(&v, &t, &mut |n| d(n, &v)).unwrap();
    files.insert(path.into(), f.asset);
    if let Some(u) = f.uexp {
        files.insert(std::path::Path::new(path).with_extension("uexp").to_string_lossy().to_string(), u);
    }
}
pub fn asset_path(p: &str) -> String {
    format!("{GAME}/Content/{}.uasset", &p["/Game/".len()..])
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub maps: Vec<(Map, usize)>,
    pub actors: Vec<(Actor, usize)>,
    /// which mod asks for which actors and maps
    pub asks: Vec<(Value, Value)>,
    pub bad: &'static str,
    pub shuffled: bool,
    pub v1: bool,
    pub old: bool,
}
fn a_node(c: &mut Ch, i: usize) -> Node {
    let names: [Name; 6] = [
        (["DefaultSceneRoot", "Light", "Mesh"][i].into(), 0),
        ("Light".into(), 2),
        ("Mesh".into(), 1),
        ("SceneComponent".into(), 0),
        ("DefaultSceneRoot".into(), [1, 0, 2][i]),
        (["Light", "DefaultSceneRoot", "DefaultSceneRoot"][i].into(), [1, 1, 0][i]),
    ];
    Node { name: c.of(&names), class: c.of(&[0, 1, 2, 3]), children: vec![], foreign: c.pick(2) == 1 }
}
fn an_actor(c: &mut Ch, k: usize) -> Actor {
    let path = c.of(&["/Game/Mods/ActorOne", "/Game/ActorOne", "/Game/Deep/Er/Actor_2"]).replace("One", ["One", "Two"][k]).replace("_2", ["_2", "_3"][k]);
    let mut nodes = match c.pick(5) {
        1 => None,
        n => {
            let count = [2, 0, 0, 1, 3][n];
            let mut l: Vec<Node> = (0..count).map(|i| a_node(c, i)).collect();
            // who is whose child
            match (count, c.pick(4)) {
                (0, _) | (_, 1) => {}
                (2, 0) => l[0].children = vec![1],
                (2, 2) => l[1].children = vec![0],
                (3, 0) => {
                    l[0].children = vec![1];
                    l[1].children = vec![2];
                }
                (3, 2) => l[0].children = vec![1, 2],
                (3, 3) => {
                    l[2].children = vec![0];
                    l[0].children = vec![1];
                }
                _ => {}
            }
            Some(l)
        }
    };
    // nodes of one actor have distinct names, and a foreign node has no children
    if let Some(l) = &mut nodes {
        for i in 0..l.len() {
            if l[..i].iter().any(|x| x.name == l[i].name) {
                l[i].name = (format!("N{i}"), 0);
            }
            if l[i].foreign {
                l[i].children.clear();
            }
        }
    }
    Actor { path, nodes, reversed: c.pick(2) == 1, own_class: c.pick(2) == 1, bad_index: false, nodes_first: c.pick(2) == 1 }
}
pub fn scene(c: &mut Ch) -> Scene {
    let bad = c.of(&["", "actors are no list", "actor is no string", "actor elsewhere", "actor missing", "map missing", "map without level", "node out of range"]);
    let nmaps = c.of(&[1usize, 0, 2]);
    let mut maps = vec![];
    for k in 0..nmaps {
        let m = Map {
            path: format!("{GAME}/Content/Maps/{}.umap", ["MapA", "MapB"][k]),
            level: bad != "map without level",
            known: c.pick(3),
            actors: c.of(&[vec![2], vec![], vec![0, 2, 2]]),
            late: c.pick(2) == 1,
            uexp: c.pick(2) == 0,
            tag: 10,
        };
        // in a game pak, in a mod pak, in both
        let at = c.pick(4);
        maps.push((m, at));
    }
    let nactors = c.of(&[1usize, 0, 2]);
    let mut actors: Vec<(Actor, usize)> = (0..nactors).map(|k| (an_actor(c, k), c.pick(3))).collect();
    if let (Some(a), "node out of range") = (actors.first_mut(), bad) {
        a.0.bad_index = true;
    }
    let mut paths: Vec<Value> = actors.iter().map(|a| json!(a.0.path)).collect();
    match bad {
        "actor is no string" => paths.push(json!(7)),
        "actor elsewhere" => paths.push(json!("/Script/Engine/Actor")),
        "actor missing" => paths.push(json!("/Game/Nowhere")),
        _ => {}
    }
    let mut mp: Vec<Value> = maps.iter().map(|m| json!(m.0.path)).collect();
    if bad == "map missing" {
        mp.push(json!(format!("{GAME}/Content/Maps/None.umap")));
    }
    let actors_value = if bad == "actors are no list" { json!("/Game/X") } else { json!(paths) };
    let asks = match c.pick(3) {
        0 => vec![(actors_value, json!(mp))],
        1 => vec![(actors_value, Value::Null), (Value::Null, json!(mp))],
        _ if paths.len() == 2 && bad != "actors are no list" => vec![(json!([paths[0]]), json!(mp)), (json!([paths[1]]), json!([]))],
        _ => vec![(Value::Null, json!(mp)), (actors_value, Value::Null)],
    };
    Scene { maps, actors, asks, bad, shuffled: c.pick(2) == 1, v1: c.pick(2) == 1, old: c.pick(2) == 1 }
}
/// The game, the mods, and the maps as they were.
pub fn world(s: &Scene) -> (World, BTreeMap<String, (Files, bool)>) {
    let mut game = vec![Files::new(), Files::new()];
    game[0].insert("Game/0".into(), vec![1]);
    game[1].insert("Game/1".into(), vec![2]);
    let mut mods = vec![];
    for i in 0..s.asks.len().max(2) {
        let id = ["Asks", "Also"][i];
        let mut m = meta(id);
        let mut integ = json!({});
        let (a, p) = s.asks.get(i).cloned().unwrap_or((Value::Null, Value::Null));
        if !a.is_null() {
            integ["persistent_actors"] = a;
        }
        if !p.is_null() {
            integ["persistent_actor_maps"] = p;
        }
        // schema version 1 has no maps: only its actors can stand in such a document
        if s.v1 && integ.get("persistent_actor_maps").is_none() {
            m["schema_version"] = json!(1);
            m.as_object_mut().unwrap().append(integ.as_object_mut().unwrap());
        } else {
            m["integrator"] = integ;
        }
        mods.push(Mod { id: id.into(), kind: Kind::File, meta: m, files: Files::new() });
    }
    let mut originals = BTreeMap::new();
    for (m, at) in &s.maps {
        let mut f = Files::new();
        put_asset(&mut f, &m.path, &mut |n, v| map_pkg(n, v, m), s.shuffled);
        let mut other = Files::new();
        put_asset(&mut other, &m.path, &mut |n, v| map_pkg(n, v, &Map { tag: 99, uexp: m.uexp, ..m.clone() }), false);
        match at {
            0 => game[0].append(&mut f.clone()),
            1 => game[1].append(&mut f.clone()),
            2 => mods[1].files.append(&mut f.clone()),
            _ => {
                mods[1].files.append(&mut f.clone());
                game[0].append(&mut other);
            }
        }
        originals.insert(m.path.clone(), (f, m.uexp));
    }
    for (a, at) in &s.actors {
        let mut f = Files::new();
        put_asset(&mut f, &asset_path(&a.path), &mut |n, v| actor_pkg(n, v, a), s.shuffled);
        match at {
            0 => mods[0].files.append(&mut f),
            1 => game[1].append(&mut f),
            _ => mods[1].files.append(&mut f),
        }
    }
    (World { mods, baked: vec![], handlers: vec![], refuse: true, game, noise: false, old: s.old, fault: Fault::None }, originals)
}
fn must_fail(s: &Scene) -> bool {
    match s.bad {
        "" => false,
        "actors are no list" | "actor is no string" | "map missing" => true,
        "map without level" => !s.maps.is_empty(),
        "node out of range" => !s.maps.is_empty() && s.actors.first().map(|a| a.0.nodes.is_some()).unwrap_or(false),
        _ => !s.maps.is_empty(),
    }
}

fn nm(n: &unreal_asset::types::FName) -> Name {
    match fname(n) {
        Tok::N(s, i) => (s, i),
        x => panic!("harness: {x:?}"),
    }
}
/// Class, package and name of an import, as a path.
fn import_path(a: &A, i: PackageIndex) -> Option<(Name, Name, Vec<Name>)> {
    let x = a.get_import(i)?;
    let mut path = vec![nm(&x.object_name)];
    let (mut o, mut n) = (x.outer_index, 0);
    while o.index != 0 && n < 20 {
        let y = a.get_import(o)?;
        path.push(nm(&y.object_name));
        o = y.outer_index;
        n += 1;
    }
    Some((nm(&x.class_package), nm(&x.class_name), path))
}
fn toks(e: &Export<PackageIndex>, v: &Ver) -> Vec<Tok> {
    let mut o = vec![];
    walk_export(&mut o, e, v, &mut |_, _| {});
    o
}
fn z(s: &str) -> Name {
    (s.to_string(), 0)
}
/// One tagged property as (name, value).
fn value(p: &Property) -> (Name, String) {
    let n = nm(&p.get_name());
    let v = match p {
        Property::BoolProperty(b) => format!("bool {}", b.value),
        Property::ObjectProperty(o) => format!("object {}", o.value.index),
        Property::EnumProperty(e) => format!("enum {:?} {:?}", e.enum_type.as_ref().map(nm), e.value.as_ref().map(nm)),
        Property::ArrayProperty(l) => format!(
            "array {:?} {:?}",
            l.array_type.as_ref().map(nm),
            l.value
                .iter()
                .map(|x| match x {
                    Property::ObjectProperty(o) => o.value.index,
                    _ => i32::MIN,
                })
                .collect::<Vec<_>>()
        ),
        x => format!("{x:?}"),
    };
    (n, v)
}
fn properties(e: &Export<PackageIndex>) -> Option<Vec<(Name, String)>> {
    Some(e.get_normal_export()?.properties.iter().map(value).collect())
}
pub fn check_map(s: &Scene, path: &str, orig: &Files, got: &mut Files) -> Option<String> {
    let v = ue4_23();
    let upath = std::path::Path::new(path).with_extension("uexp").to_string_lossy().to_string();
    let before = parse_bytes(&orig[path], orig.get(&upath).map(|b| &b[..]), v.engine).expect("harness: map");
    let Some(b) = got.remove(path) else { return Some(format!("{path} is not in the pak")) };
    let u = got.remove(&upath);
    if u.is_some() != orig.contains_key(&upath) {
        return Some("the map was split into files differently".into());
    }
    let after = match parse_bytes(&b, u.as_deref(), v.engine) {
        Ok(a) => a,
        Err(e) => return Some(format!("cannot be read: {e}")),
    };
    for i in 0..before.imports.len() as i32 {
        let i = PackageIndex::new(-i - 1);
        if import_path(&before, i) != import_path(&after, i) {
            return Some(format!("import {} changed", i.index));
        }
    }
    for i in 0..after.imports.len() as i32 {
        let i = PackageIndex::new(-i - 1);
        if import_path(&after, i).is_none() {
            return Some(format!("import {} lies in nothing", i.index));
        }
    }
    let (bx, ax) = (&before.asset_data.exports, &after.asset_data.exports);
    if ax.len() < bx.len() {
        return Some("exports are missing".into());
    }
    let level = bx.iter().position(|e| matches!(e, Export::LevelExport(_))).expect("harness: level");
    let mut actors = vec![];
    for (i, (o, n)) in bx.iter().zip(ax).enumerate() {
        let mut n = n.clone();
        let (ob, nb) = (o.get_base_export(), n.get_base_export());
        let deps = |b: &unreal_asset::exports::BaseExport<PackageIndex>| format!("{:?}", (&b.serialization_before_serialization_dependencies, &b.serialization_before_create_dependencies, &b.create_before_create_dependencies));
        if nm(&ob.object_name) != nm(&nb.object_name) || (ob.class_index, ob.outer_index, ob.template_index, ob.super_index) != (nb.class_index, nb.outer_index, nb.template_index, nb.super_index) || deps(ob) != deps(nb) {
            return Some(format!("export {} changed", i + 1));
        }
        let (cb, cn) = (&ob.create_before_serialization_dependencies, &nb.create_before_serialization_dependencies);
        if !cn.starts_with(cb) || (i != level && cn.len() != cb.len()) {
            return Some(format!("dependencies of export {} changed", i + 1));
        }
        let new_deps = cn[cb.len()..].to_vec();
        if let (Export::LevelExport(l), Export::LevelExport(k)) = (&mut n, o) {
            if i == level {
                if !l.actors.starts_with(&k.actors) {
                    return Some("the level lost actors".into());
                }
                actors = l.actors.split_off(k.actors.len());
                // packages in one file store no such dependencies
                if u.is_some() && actors.iter().any(|a| !new_deps.contains(a)) {
                    return Some("the level does not depend on its new actors".into());
                }
            }
        }
        if toks(o, &v) != toks(&n, &v) {
            return Some(format!("content of export {} changed", i + 1));
        }
    }
    if actors.len() != s.actors.len() {
        return Some(format!("{} actors were added, not {}", actors.len(), s.actors.len()));
    }
    let mut seen = bx.len();
    for (at, (a, _)) in actors.iter().zip(&s.actors) {
        let short = a.path.rsplit('/').next().unwrap().to_string();
        let class = format!("{short}_C");
        let Some(e) = ax.get((at.index - 1) as usize).filter(|_| at.index as usize > bx.len()) else { return Some(format!("actor {} does not exist", at.index)) };
        let b = e.get_base_export();
        if nm(&b.object_name) != z(&short) || b.outer_index.index != level as i32 + 1 || b.super_index.index != 0 {
            return Some(format!("actor {} is named {:?} in {}", at.index, nm(&b.object_name), b.outer_index.index));
        }
        let got = (import_path(&after, b.class_index), import_path(&after, b.template_index));
        let want = (
            Some((z("/Script/Engine"), z("BlueprintGeneratedClass"), vec![z(&class), z(&a.path)])),
            Some((z(&a.path), z(&class), vec![z(&format!("Default__{class}")), z(&a.path)])),
        );
        if got != want {
            return Some(format!("class and template of the actor are {got:?}, not {want:?}"));
        }
        if u.is_some() && (!b.serialization_before_create_dependencies.contains(&b.class_index) || !b.serialization_before_create_dependencies.contains(&b.template_index) || !b.create_before_create_dependencies.iter().any(|x| x.index == level as i32 + 1)) {
            return Some("dependencies of the actor are incomplete".into());
        }
        // its components
        let nodes: Vec<&Node> = a.nodes.iter().flatten().filter(|n| !n.foreign).collect();
        let Some(props) = properties(e) else { return Some("the actor is no ordinary object".into()) };
        let find = |k: &str| props.iter().find(|p| p.0 == z(k)).map(|p| p.1.clone());
        let list = find("BlueprintCreatedComponents").unwrap_or_default();
        let comps: Vec<i32> = list.strip_prefix("array Some((\"ObjectProperty\", 0)) ").and_then(|x| serde_json::from_str(x).ok()).unwrap_or_default();
        let mut want: Vec<(Name, String)> = vec![(z("bHidden"), "bool true".into()), (z("BlueprintCreatedComponents"), format!("array {:?} {comps:?}", if nodes.is_empty() { None.or(Some(z("ObjectProperty"))) } else { Some(z("ObjectProperty")) }))];
        if comps.len() != nodes.len() {
            return Some(format!("components {list}, nodes {nodes:?}"));
        }
        for (n, c) in nodes.iter().zip(&comps) {
            want.push((n.name.clone(), format!("object {c}")));
            if n.name == z("DefaultSceneRoot") {
                want.push((z("RootComponent"), format!("object {c}")));
            }
        }
        let mut have = props.clone();
        have.sort();
        want.sort();
        if have != want {
            return Some(format!("properties of the actor are {have:?}, not {want:?}"));
        }
        for (n, c) in nodes.iter().zip(&comps) {
            let Some(x) = ax.get(*c as usize - 1).filter(|_| *c as usize > bx.len()) else { return Some(format!("component {c} does not exist")) };
            let xb = x.get_base_export();
            if nm(&xb.object_name) != n.name || xb.outer_index != *at {
                return Some(format!("component {c} is {:?} in {}, not {:?} in {}", nm(&xb.object_name), xb.outer_index.index, n.name, at.index));
            }
            let (cc, cp, cn) = CLASSES[n.class];
            let (k1, k2) = cc.split_once('.').unwrap();
            let want = Some((z(k1), z(k2), vec![z(cn), z(cp)]));
            if import_path(&after, xb.class_index) != want {
                return Some(format!("class of component {:?} is {:?}, not {want:?}", n.name, import_path(&after, xb.class_index)));
            }
            let mut want: Vec<(Name, String)> = vec![(z("bNetAddressable"), "bool true".into()), (z("CreationMethod"), format!("enum {:?} {:?}", Some(z("EComponentCreationMethod")), Some(z("EComponentCreationMethod::SimpleConstructionScript"))))];
            let me = a.nodes.iter().flatten().position(|y| std::ptr::eq(y, *n)).unwrap();
            let parent = nodes.iter().position(|y| y.children.contains(&me));
            if let Some(p) = parent {
                want.push((z("AttachParent"), format!("object {}", comps[p])));
            }
            let mut have = properties(x).unwrap_or_default();
            have.sort();
            want.sort();
            if have != want {
                return Some(format!("properties of component {:?} are {have:?}, not {want:?}", n.name));
            }
            let full = if n.name.1 == 0 { n.name.0.clone() } else { format!("{}_{}", n.name.0, n.name.1 - 1) };
            let gen = (z(cn), vec![z(&format!("{full}_GEN_VARIABLE")), z(&class), z(&a.path)]);
            if !(0..after.imports.len() as i32).filter_map(|i| import_path(&after, PackageIndex::new(-i - 1))).any(|p| (p.1, p.2) == gen) {
                return Some(format!("{gen:?} is not imported"));
            }
        }
        seen += 1 + nodes.len();
    }
    if seen != ax.len() {
        return Some(format!("{} exports, {seen} are accounted for", ax.len()));
    }
    None
}
pub fn run(ctx: &Ctx) {
    let k = ctx.pick(3, 4);
    ctx.bound(format!("every integration with at most {k} unusual choices: up to two maps and two actors in game and mod paks, up to three components per actor in every parent relation, existing imports, unreadable requests"));
    ctx.assume("maps are asked for by the path of their file; actors by the path of their package; components of one actor have distinct names");
    let mut all = vec![];
    deviations(k, &mut |c| {
        all.push(scene(c));
        true
    });
    par_for(all.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let s = &all[i];
        let (w, originals) = world(s);
        let r = crate::world::run(&w);
        ctx.state();
        ctx.step(s.maps.len() as u64 * (1 + s.actors.len() as u64));
        ctx.trace();
        ctx.outcome(if r.result.is_ok() { "integrated" } else { "refused" });
        let e = judge(&w, &r, must_fail(s), &mut |files| {
            for (path, (orig, _)) in &originals {
                if let Some(e) = check_map(s, path, orig, files) {
                    return Some(format!("{path}: {e}"));
                }
            }
            None
        });
        if let Some(e) = e {
            ctx.violation(&format!("scene {i}"), format!("{s:?}\n{e}"));
        }
    });
}
