//! P19: mod metadata documents.
use mc::core::*;
use mc::pkg::{deviations, Ch};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use unreal_mod_metadata::{from_slice, Dependency, DownloadMode, Metadata, SyncMode};

/// What a document says: field -> text of the value; None: not a valid document; Skip: not decided here.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Doc(BTreeMap<&'static str, String>),
    Invalid,
    Open,
}
struct Gen {
    fields: Vec<(&'static str, String)>,
    want: BTreeMap<&'static str, String>,
    invalid: bool,
    open: bool,
}
const VALID_REQ: [(&str, &str); 5] = [("*", "*"), (">=1.2.3", ">=1.2.3"), ("1.2", "^1.2"), ("<=2.1.0, >1", "<=2.1.0, >1"), ("=1.0.0-beta", "=1.0.0-beta")];
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
/// (json, Ok(model) | Err)
fn download(c: &mut Ch) -> (Option<String>, Result<Option<String>, ()>) {
    match c.pick(7) {
        0 => (None, Ok(None)),
        1 => (Some("null".into()), Ok(None)),
        2 => (Some(r#"{"type":"index_file","url":"https://example.com/x?y=1"}"#.into()), Ok(Some("index_file https://example.com/x?y=1".into()))),
        3 => (Some(r#"{"url":"","type":"index_file","more":[1]}"#.into()), Ok(Some("index_file ".into()))),
        4 => (Some(r#"{"type":"direct","url":"u"}"#.into()), Err(())),
        5 => (Some(r#"{"type":"index_file"}"#.into()), Err(())),
        _ => (Some(r#""https://example.com""#.into()), Err(())),
    }
}
fn dependency(c: &mut Ch) -> (String, Result<String, ()>) {
    match c.pick(9) {
        0 => (q(VALID_REQ[0].0), Ok(format!("{} -", VALID_REQ[0].1))),
        k @ 1..=4 => (q(VALID_REQ[k].0), Ok(format!("{} -", VALID_REQ[k].1))),
        5 => {
            let (j, m) = download(c);
            let d = j.map(|j| format!(",\"download\":{j}")).unwrap_or_default();
            (format!("{{\"version\":\">=1.2.0\"{d}}}"), m.map(|m| format!(">=1.2.0 {}", m.unwrap_or("-".into()))))
        }
        6 => {
            let s = c.of(&["", "not a version", ">=", "1.2.3.4", ">=1.2.3 <"]);
            let j = if c.pick(2) == 0 { q(s) } else { format!("{{\"version\":{}}}", q(s)) };
            (j, Err(()))
        }
        7 => (c.of(&["5", "[]", "true", "null"]).into(), Err(())),
        _ => (c.of(&["{}", r#"{"version":5}"#, r#"{"download":null}"#]).into(), Err(())),
    }
}
const VALUES: [&str; 9] = [r#"["/Game/A","/Game/B"]"#, "[]", r#"{"/Game/M":["C",{"x":[1,-2,1.5]}]}"#, "{}", r#""text""#, "17", "true", "null", r#"[{"b":1,"a":[null]},[[]]]"#];
fn canon(s: &str) -> String {
    serde_json::from_str::<serde_json::Value>(s).unwrap().to_string()
}
fn gen(c: &mut Ch) -> Gen {
    let mut g = Gen { fields: vec![], want: BTreeMap::new(), invalid: false, open: false };
    let schema = c.pick(11);
    let sv = [Some("2"), None, Some("1"), Some("null"), Some("3"), Some("0"), Some("\"2\""), Some("2.0"), Some("-1"), Some("18446744073709551615"), Some("[]")][schema];
    let v1 = matches!(schema, 1..=3);
    if let Some(s) = sv {
        g.fields.push(("schema_version", s.into()));
    }
    g.invalid |= schema > 3;
    g.want.insert("schema", "2".into());
    for f in ["name", "mod_id", "version"] {
        let x = c.of(&[Some("\"Test\""), Some("\"\""), Some(r#""Ünï \"q\" \u0041""#), None, Some("null"), Some("1"), Some("[\"x\"]")]);
        match x {
            None => g.invalid = true,
            Some(x) => {
                g.fields.push((f, x.into()));
                match serde_json::from_str::<String>(x) {
                    Ok(s) => {
                        g.want.insert(f, s);
                    }
                    Err(_) => g.invalid = true,
                }
            }
        }
    }
    for f in ["author", "description", "game_build", "homepage"] {
        match c.pick(5) {
            0 => {}
            1 => g.fields.push((f, "null".into())),
            2 => {
                g.fields.push((f, q("some text")));
                g.want.insert(f, "some text".into());
            }
            3 => {
                g.fields.push((f, q("")));
                g.want.insert(f, "".into());
            }
            _ => {
                g.fields.push((f, "7".into()));
                g.invalid = true;
            }
        }
    }
    match c.pick(9) {
        0 => {}
        1 => g.fields.push(("sync", "null".into())),
        k @ 2..=5 => {
            let s = ["serverclient", "server", "client", "none"][k - 2];
            g.fields.push(("sync", q(s)));
            g.want.insert("sync", s.into());
        }
        k => {
            g.fields.push(("sync", ["\"Server\"", "\"\"", "3"][k - 6].into()));
            g.invalid = true;
        }
    }
    let (j, m) = download(c);
    if let Some(j) = j {
        g.fields.push(("download", j));
    }
    match m {
        Ok(Some(m)) => {
            g.want.insert("download", m);
        }
        Ok(None) => {}
        Err(()) => g.invalid = true,
    }
    // dependencies
    let nd = c.pick(7);
    let mut deps: BTreeMap<String, String> = BTreeMap::new();
    if (2..=4).contains(&nd) || nd == 1 {
        let mut l = vec![];
        for k in 0..nd - 1 {
            let (j, m) = dependency(c);
            let n = ["FirstMod", "Zweiter", "ä b"][k];
            l.push(format!("{}:{j}", q(n)));
            match m {
                Ok(m) => {
                    deps.insert(n.into(), m);
                }
                Err(()) if v1 => {}
                Err(()) => g.invalid = true,
            }
        }
        g.fields.push(("dependencies", format!("{{{}}}", l.join(","))));
    } else if nd == 5 {
        g.fields.push(("dependencies", "null".into()));
        g.open |= !v1;
    } else if nd == 6 {
        g.fields.push(("dependencies", c.of(&["[]", "\"*\"", "3"]).into()));
        g.invalid |= !v1;
    }
    if v1 {
        deps.clear();
    }
    g.want.insert("dependencies", format!("{deps:?}"));
    // integrator
    let mut integ: BTreeMap<String, String> = BTreeMap::new();
    match c.pick(5) {
        0 => {}
        4 => {
            g.fields.push(("integrator", c.of(&["null", "[]", "1"]).into()));
            g.open |= !v1;
        }
        k => {
            let mut l = vec![];
            for i in 0..k - 1 {
                let v = VALUES[(i * 2 + c.pick(VALUES.len())) % VALUES.len()];
                let n = ["persistent_actors", "custom"][i];
                l.push(format!("{}:{v}", q(n)));
                integ.insert(n.into(), canon(v));
            }
            g.fields.push(("integrator", format!("{{{}}}", l.join(","))));
        }
    }
    if v1 {
        integ.clear();
    }
    // the fields of version 1 which became integrator entries
    for f in ["persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"] {
        let k = c.pick(VALUES.len() + 1);
        if k > 0 {
            g.fields.push((f, VALUES[k - 1].into()));
            if v1 && VALUES[k - 1] != "null" {
                integ.insert(f.into(), canon(VALUES[k - 1]));
            }
        }
    }
    g.want.insert("integrator", format!("{integ:?}"));
    match c.pick(9) {
        0 => {
            g.want.insert("dlls", "[]".into());
        }
        k @ (1 | 2 | 5..=8) => {
            let l: Vec<&str> = match k {
                1 | 2 => ["/Game/a.dll", "b.dll"][..k].to_vec(),
                5 => vec!["b.dll"],
                6 => vec!["b.dll", "/Game/a.dll"],
                7 => vec!["B.DLL"],
                _ => vec!["b.dll", "b.dll", ""],
            };
            g.fields.push(("cpp_loader_dlls", serde_json::to_string(&l).unwrap()));
            g.want.insert("dlls", if v1 { "[]".into() } else { format!("{l:?}") });
        }
        k => {
            g.fields.push(("cpp_loader_dlls", ["null", "[1]"][k - 3].into()));
            g.want.insert("dlls", "[]".into());
            if !v1 {
                if k == 3 {
                    g.open = true
                } else {
                    g.invalid = true
                }
            }
        }
    }
    if c.pick(2) == 1 {
        g.fields.push(("unknown_field", "{\"x\":[1]}".into()));
    }
    g
}
fn text(g: &Gen, rev: bool) -> String {
    let mut l: Vec<String> = g.fields.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect();
    if rev {
        l.reverse();
    }
    format!("{{{}}}", l.join(" ,\n"))
}
fn want(g: &Gen) -> Want {
    if g.invalid {
        Want::Invalid
    } else if g.open {
        Want::Open
    } else {
        Want::Doc(g.want.clone())
    }
}
fn dep(d: &Dependency) -> String {
    format!("{} {}", d.version, d.download.as_ref().map(|d| format!("{} {}", match d.download_mode { DownloadMode::IndexFile => "index_file" }, d.url)).unwrap_or("-".into()))
}
fn seen(m: &Metadata) -> BTreeMap<&'static str, String> {
    let mut o = BTreeMap::new();
    o.insert("schema", m.schema_version.to_string());
    o.insert("name", m.name.clone());
    o.insert("mod_id", m.mod_id.clone());
    o.insert("version", m.mod_version.clone());
    for (k, v) in [("author", &m.author), ("description", &m.description), ("game_build", &m.game_build), ("homepage", &m.homepage)] {
        if let Some(v) = v {
            o.insert(k, v.clone());
        }
    }
    if let Some(s) = m.sync {
        o.insert("sync", match s {
            SyncMode::ServerAndClient => "serverclient",
            SyncMode::ServerOnly => "server",
            SyncMode::ClientOnly => "client",
            SyncMode::None => "none",
        }
        .into());
    }
    if let Some(d) = &m.download {
        o.insert("download", format!("index_file {}", d.url));
    }
    let deps: BTreeMap<String, String> = m.dependencies.iter().map(|(k, d)| (k.clone(), dep(d))).collect();
    o.insert("dependencies", format!("{deps:?}"));
    let integ: BTreeMap<String, String> = m.integrator.iter().map(|(k, d)| (k.clone(), d.to_string())).collect();
    o.insert("integrator", format!("{integ:?}"));
    o.insert("dlls", format!("{:?}", m.cpp_loader_dlls));
    o
}
fn hash(m: &Metadata) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
fn parse(s: &[u8]) -> Result<Metadata, String> {
    match guard(|| from_slice(s)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => match guard(move || e.to_string()) {
            Ok(e) => Err(format!("error: {e}")),
            Err(p) => Err(format!("{p} while describing the error")),
        },
        Err(p) => Err(p),
    }
}
fn judge(g: &Gen) -> Option<String> {
    let s = text(g, false);
    let m = match (parse(s.as_bytes()), want(g)) {
        (Err(e), _) if !e.starts_with("error:") => return Some(e),
        (_, Want::Open) => return None,
        (Err(_), Want::Invalid) => return None,
        (Err(e), Want::Doc(_)) => return Some(format!("a valid document is refused: {e}")),
        (Ok(m), Want::Invalid) => return Some(format!("an invalid document is read as {m:?}")),
        (Ok(m), Want::Doc(w)) => {
            if seen(&m) != w {
                let d: Vec<String> = seen(&m).iter().filter(|(k, v)| w.get(*k) != Some(v)).map(|(k, v)| format!("{k} is {v:?} instead of {:?}", w.get(k))).chain(w.iter().filter(|(k, _)| !seen(&m).contains_key(*k)).map(|(k, v)| format!("{k}={v:?} is missing"))).collect();
                return Some(d.join("; "));
            }
            m
        }
    };
    let r = guard(|| {
        // maps are iterated in another order in every copy
        for round in 0..6 {
            let o = match parse(text(g, round % 2 == 1).as_bytes()) {
                Ok(o) => o,
                Err(e) => return Some(format!("second parse: {e}")),
            };
            if o != m {
                return Some(format!("two readings of the document are unequal (integrator {:?}, dependencies {:?})", m.integrator, m.dependencies.keys()));
            }
            if hash(&o) != hash(&m) {
                return Some("equal metadata with different hashes".into());
            }
        }
        if m.clone() != m {
            return Some("a clone is unequal".into());
        }
        let j = match serde_json::to_vec(&m) {
            Ok(j) => j,
            Err(e) => return Some(format!("cannot be serialized: {e}")),
        };
        match parse(&j) {
            Err(e) => Some(format!("the serialized metadata is refused: {e}")),
            Ok(b) if seen(&b) != seen(&m) || b != m => Some(format!("serialized and read back: {b:?}")),
            _ => None,
        }
    });
    match r {
        Ok(r) => r,
        Err(p) => Some(p),
    }
}
pub fn run(ctx: &Ctx) {
    let k = ctx.pick(3, 4);
    ctx.bound(format!("documents of schema versions 1 and 2 (and none, invalid ones) with every combination of at most {k} unusual fields (missing, null, wrong type, every enumerator, 0..3 dependencies in both notations, integrator values of every JSON type, unknown fields); equality and hashes over all pairs of documents with one unusual field, or two of the structured ones; every truncation and byte replacement of typical documents"));
    ctx.assume("null in place of a map or list is not decided; duplicate keys are not explored");
    let mut ones: Vec<(Metadata, BTreeMap<&'static str, String>)> = vec![];
    deviations(k, &mut |c| {
        let script = c.clone();
        let g = gen(c);
        ctx.state();
        ctx.step(9);
        ctx.trace();
        match want(&g) {
            Want::Doc(w) => {
                ctx.outcome("valid");
                if script.script.iter().filter(|x| **x != 0).count() <= 1 || (script.script.iter().filter(|x| **x != 0).count() <= 2 && g.fields.iter().any(|f| ["dependencies", "integrator", "download", "persistent_actors", "cpp_loader_dlls"].contains(&f.0)) && !g.fields.iter().any(|f| f.0 == "unknown_field" || f.0 == "author" || f.0 == "description")) {
                    if let Ok(m) = parse(text(&g, false).as_bytes()) {
                        ones.push((m, w));
                    }
                }
            }
            Want::Invalid => ctx.outcome("invalid"),
            Want::Open => ctx.outcome("open"),
        }
        if let Some(d) = judge(&g) {
            let bad: Vec<String> = g.fields.iter().filter(|f| !["name", "mod_id", "version"].contains(&f.0)).map(|f| f.0.to_string()).collect();
            ctx.violation(&format!("document with {}", bad.join(",")), format!("{d}\n{}", text(&g, false)));
        }
        !ctx.stopped()
    });
    let texts: Vec<String> = ones.iter().map(|o| format!("{:?}", o.1)).collect();
    for (i, (a, _)) in ones.iter().enumerate() {
        let r = guard(|| ones.iter().enumerate().find(|(j, (b, _))| (a == b) != (texts[i] == texts[*j]) || (a == b && hash(a) != hash(b))).map(|e| e.0));
        ctx.step(ones.len() as u64);
        match r {
            Ok(None) => {}
            Ok(Some(j)) => {
                let b = &ones[j].0;
                ctx.violation("equality", format!("{a:?} and {b:?} compare {}{}", if a == b { "equal" } else { "unequal" }, if a == b && hash(a) != hash(b) { " with different hashes" } else { "" }));
            }
            Err(p) => ctx.violation("equality", format!("{a:?}: {p}")),
        }
    }
    for (m, s) in [(SyncMode::ServerAndClient, "Server and Client"), (SyncMode::ServerOnly, "Server only"), (SyncMode::ClientOnly, "Client only"), (SyncMode::None, "None")] {
        if m.to_string() != s {
            ctx.violation("sync mode text", format!("{m:?} is shown as {m}"));
        }
    }
    // damaged documents
    let docs = [
        r#"{"schema_version":2,"name":"T","mod_id":"I","version":"1.0.0","sync":"client","download":{"type":"index_file","url":"u"},"dependencies":{"A":">=1.2.3","B":{"version":"*"}},"integrator":{"k":[1]},"cpp_loader_dlls":["d"]}"#,
        r#"{"name":"T","mod_id":"I","version":"1.0.0","persistent_actors":["x"],"item_list_entries":{"a":{"b":[]}}}"#,
    ];
    for d in docs {
        for i in 0..d.len() {
            let mut cases = vec![d.as_bytes()[..i].to_vec()];
            for x in 0..=255u8 {
                let mut b = d.as_bytes().to_vec();
                b[i] = x;
                cases.push(b);
            }
            for b in cases {
                ctx.state();
                ctx.step(1);
                match parse(&b) {
                    Ok(_) => ctx.outcome("damaged: readable"),
                    Err(e) if e.starts_with("error:") => ctx.outcome("damaged: refused"),
                    Err(e) => ctx.violation("damaged document", format!("{e}\n{}", String::from_utf8_lossy(&b))),
                }
            }
        }
    }
}
