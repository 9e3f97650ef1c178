//! P13: every property type in every place it can occur, over the version lattice.
use mc::core::*;
use mc::pkg::*;
use mc::props::{Ty::*, *};
use mc::uasset::*;
use unreal_asset::exports::ExportNormalTrait;

pub fn bx(t: Ty) -> Box<Ty> {
    Box::new(t)
}

/// (property name, type, only byte identity is required)
pub fn shapes() -> Vec<(&'static str, Ty, bool)> {
    let mut o: Vec<(&'static str, Ty, bool)> = vec![];
    let n = "Prop";
    let mut pl: Vec<Ty> = PLAIN.iter().map(|p| P(p)).collect();
    pl.push(P("WeirdProperty"));
    let leaves: Vec<Ty> = LEAVES.iter().map(|p| S(p)).collect();
    let generic = S("MyStruct");
    for t in pl.iter().chain(&leaves).chain([&generic]) {
        o.push((n, t.clone(), false));
        o.push((n, L("Outer", bx(t.clone())), false));
        o.push((n, Arr(bx(L("Outer", bx(t.clone())))), false));
        o.push((n, Map(bx(P("NameProperty")), bx(L("Generic", bx(t.clone())))), false));
        if *t == P("WeirdProperty") {
            // the element size of an unknown type is unknown: only lossless
            o.push((n, Arr(bx(t.clone())), true));
            continue;
        }
        o.push((n, Arr(bx(t.clone())), false));
        if let P(_) = t {
            let small = *t == P("ByteProperty");
            o.push((n, Set(bx(t.clone())), small));
            if *t != P("BoolProperty") && !matches!(t, P("TextProperty" | "SoftObjectProperty" | "DelegateProperty" | "MulticastDelegateProperty" | "MulticastSparseDelegateProperty" | "MulticastInlineDelegateProperty")) {
                // keys have to be distinct
                o.push((n, Map(bx(t.clone()), bx(P("IntProperty"))), false));
            }
            o.push((n, Map(bx(P("NameProperty")), bx(t.clone())), false));
        }
    }
    o.push((n, Set(bx(generic.clone())), false));
    o.push((n, Map(bx(generic.clone()), bx(P("IntProperty"))), false));
    o.push((n, Map(bx(P("IntProperty")), bx(generic.clone())), false));
    o.push((n, Map(bx(generic.clone()), bx(generic.clone())), false));
    for k in ["PlayerCharacterIDs", "m_PerConditionValueToNodeMap", "BindingIdToReferences", "ItemsToRefund", "PlayerCharacterIDMap"] {
        o.push((k, Map(bx(S("Guid")), bx(P("IntProperty"))), false));
        o.push((k, Map(bx(S("Guid")), bx(generic.clone())), false));
    }
    o.push(("TrackSignatureToTrackIdentifier", Map(bx(S("Guid")), bx(S("MovieSceneTrackIdentifier"))), false));
    o.push(("Tracks", Map(bx(S("MovieSceneTrackIdentifier")), bx(generic.clone())), false));
    o.push(("SubSequences", Map(bx(S("MovieSceneSequenceID")), bx(generic.clone())), false));
    o.push(("Hierarchy", Map(bx(S("MovieSceneSequenceID")), bx(generic.clone())), false));
    o.push(("UserParameterRedirects", Map(bx(S("NiagaraVariable")), bx(S("NiagaraVariable"))), false));
    o.push(("ColorDatabase", Map(bx(P("NameProperty")), bx(S("LinearColor"))), false));
    o.push(("RainChanceMinMaxPerWeatherState", Map(bx(P("EnumProperty")), bx(S("FloatRange"))), false));
    o.push(("Keys", Arr(bx(S("RichCurveKey"))), false));
    for inner in [P("IntProperty"), P("NameProperty"), S("Vector"), generic.clone()] {
        for cont in [Arr(bx(inner.clone())), Map(bx(P("IntProperty")), bx(if inner == S("Vector") { generic.clone() } else { inner.clone() })), Set(bx(if inner == S("Vector") { generic.clone() } else { inner.clone() }))] {
            o.push((n, L("Outer", bx(cont.clone())), false));
            o.push((n, Arr(bx(L("Outer", bx(cont.clone())))), false));
            o.push((n, Map(bx(P("StrProperty")), bx(L("Generic", bx(cont.clone())))), false));
            o.push((n, L("Outer", bx(L("Middle", bx(Arr(bx(L("Deep", bx(cont.clone()))))))) ), false));
        }
    }
    o
}
pub fn uses(t: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
    f(t) || match t {
        P(_) | S(_) => false,
        L(_, a) | Arr(a) | Set(a) => uses(a, f),
        Map(a, b) => uses(a, f) || uses(b, f),
    }
}
pub fn big(t: &Ty) -> bool {
    uses(t, &|t| matches!(t, L(..))) && uses(t, &|t| matches!(t, Arr(_) | Map(..)))
}
/// Shapes a version cannot express or whose types are not recorded in its files.
pub fn skip(v: &Ver, name: &str, t: &Ty) -> bool {
    if uses(t, &|t| matches!(t, S(s) if impossible(v, s))) {
        return true;
    }
    // before inner tags an array does not record its struct type
    if v.obj < V_INNER_TAG && uses(t, &|t| matches!(t, Arr(e) if matches!(&**e, S(s) if native(v, s)))) {
        return !(name == "Keys");
    }
    // the override tables name native layouts
    false
}
pub fn versions() -> Vec<Ver> {
    let mut o = vec![];
    for obj in [214, 225, 226, 365, 366, 367, 368, 440, 441, 499, 500, 502, 503, 513, 514, 522] {
        o.push(Ver::versioned(obj, 0, &[]));
        o.push(Ver::versioned(obj, 0, &CV_LATEST));
    }
    for ue5 in [1003, 1004, 1006, 1007, 1009] {
        o.push(Ver::versioned(522, ue5, &[]));
        o.push(Ver::versioned(522, ue5, &CV_LATEST));
    }
    for (g, n) in [CV_FLOATCH_SHOW, CV_FONT_FACE, CV_MOVIE_META, CV_CULTURE_INV, CV_SMART_UID, CV_SMART_REF, CV_FLOATCH] {
        for x in [n - 1, n] {
            o.push(Ver::versioned(522, 0, &[(g, x)]));
        }
    }
    o
}
pub fn describe(v: &Ver, name: &str, t: &Ty, c: &mut Ch, names: &NamesRef) -> Pkg {
    let mut w = W::new(names, v);
    // real name tables start with a path
    w.rname("/Game/Path", 0);
    w.b.clear();
    w.t("{");
    tagged(&mut w, c, name, t);
    // what follows must still be found
    let mut dc = Ch::new(&[]);
    tagged(&mut w, &mut dc, "After", &P("IntProperty"));
    w.t("}");
    w.rname("None", 0);
    w.ri32(0);
    let e = Exp { class: -2, name: ("Export".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
    Pkg { uexp: v.obj >= V_PRELOAD, imports: vec![imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"), imp("/Script/CoreUObject", "Class", -1, "SomeClass")], depends: Some(vec![vec![]]), exports: vec![e], ..Default::default() }
}
pub fn diff_toks(got: &[Tok], want: &[Tok]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let s = i.saturating_sub(4);
    Some(format!("item {i}: read ..{:?}, the file holds ..{:?}", &got[s.min(got.len())..(i + 3).min(got.len())], &want[s.min(want.len())..(i + 3).min(want.len())]))
}
/// Read, compare, write, compare.
pub fn judge(f: &File, p: &Pkg, v: &Ver, lossless_only: bool) -> Option<String> {
    judge_opened(parse(f, v), f, p, v, lossless_only)
}
pub fn judge_opened(a: Result<A, String>, f: &File, p: &Pkg, v: &Ver, lossless_only: bool) -> Option<String> {
    let a = match a {
        Ok(a) => a,
        Err(e) => return Some(format!("reading failed: {e}")),
    };
    if !lossless_only {
        let x = &a.asset_data.exports[0];
        if variant(x) != "Normal" {
            return Some(format!("the export was not understood (kept as {})", variant(x)));
        }
        let n = x.get_normal_export().unwrap();
        let mut got = vec![];
        walk_list(&n.properties, v, &mut got);
        if let Some(d) = diff_toks(&got, &p.exports[0].toks) {
            return Some(format!("content differs: {d}"));
        }
        if n.extras != [0; 4] {
            return Some(format!("{} bytes left over instead of 4", n.extras.len()));
        }
    }
    if table_of(&a) != f.names {
        return Some(format!("reading changed the name table: {:?} -> {:?}", f.names, table_of(&a)));
    }
    match write(&a) {
        Err(e) => Some(format!("writing failed: {e}")),
        Ok(w) => diff_files(&w, f).map(|d| format!("unchanged save differs: {d}")),
    }
}
pub fn run(ctx: &Ctx) {
    let (vs, shapes) = (versions(), shapes());
    let thorough = ctx.thorough();
    ctx.bound(format!("{} property shapes (all {} plain types, {} native struct layouts, tagged structs; as property, struct member, array/set element, map key/value, struct array member, nested) x {} versions; every combination of at most 2 (struct arrays and maps of structs: {}; plain values and single structs: {}) unusual values, counts, guids, indices", shapes.len(), PLAIN.len(), LEAVES.len(), vs.len(), ctx.pick(1, 2), ctx.pick(2, 3)));
    ctx.assume("struct types that a file does not record (sets of native structs, map structs without an override) are out of scope; sets of bytes only have to survive unchanged");
    par_for(shapes.len() * vs.len(), |i| {
        let (name, t, lenient) = &shapes[i / vs.len()];
        let v = &vs[i % vs.len()];
        if ctx.stopped() || skip(v, name, t) {
            return;
        }
        let big = big(t);
        let k = match (thorough, t) {
            (true, P(_) | S(_)) => 3,
            (false, _) if big => 1,
            _ => 2,
        };
        deviations(k, &mut |c| {
            let script = c.clone();
            let mut last = c.clone();
            let (f, p) = build(v, &Table::Natural, &mut |n| {
                last = script.clone();
                describe(v, name, t, &mut last, n)
            })
            .unwrap();
            *c = last;
            ctx.state();
            ctx.step(2);
            ctx.trace();
            if let Some(d) = judge(&f, &p, v, *lenient) {
                ctx.outcome("violation");
                ctx.violation(&format!("{name}:{t:?}"), format!("{} choices {:?}: {d}\nexport data: {}", v.tag(), script.script, hex(&p.exports[0].body)));
                return false;
            }
            !ctx.stopped()
        });
        ctx.outcome("shape x version");
        ctx.sample(|| format!("{t:?} at {}", v.tag()));
    });
}
