//! Reference serializer for tagged properties (independent of the library's writer) and a walker
//! that lists what the library read, both as token streams.
use crate::pkg::*;
use crate::uasset::fname;
use unreal_asset::properties::int_property::BytePropertyValue;
use unreal_asset::properties::material_input_property::MaterialExpression;
use unreal_asset::properties::movies::movie_scene_evaluation::*;
use unreal_asset::properties::movies::movie_scene_float_value_property::MovieSceneFloatValue;
use unreal_asset::properties::object_property::SoftObjectPath;
use unreal_asset::properties::soft_path_property::SoftObjectPathPropertyValue;
use unreal_asset::properties::str_property::TextProperty;
use unreal_asset::properties::vector_property::*;
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::movie::FFrameNumberRange;
use unreal_asset::types::PackageIndex;
use unreal_asset_base::types::fname::ToSerializedName;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    /// plain property type
    P(&'static str),
    /// struct with this type name; natively serialized or a tagged list
    S(&'static str),
    /// tagged struct of this type holding one property of the inner type
    L(&'static str, Box<Ty>),
    Arr(Box<Ty>),
    Set(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
}
use Ty::*;

pub const PLAIN: &[&str] = &[
    "BoolProperty", "Int8Property", "Int16Property", "IntProperty", "Int64Property", "UInt16Property", "UInt32Property", "UInt64Property", "FloatProperty", "DoubleProperty", "NameProperty",
    "StrProperty", "TextProperty", "ObjectProperty", "AssetObjectProperty", "SoftObjectProperty", "ByteProperty", "EnumProperty", "DelegateProperty", "MulticastDelegateProperty",
    "MulticastSparseDelegateProperty", "MulticastInlineDelegateProperty",
];
pub const LEAVES: &[&str] = &[
    "Vector", "Rotator", "Vector2D", "Vector4", "Quat", "Plane", "IntPoint", "Box", "Box2D", "LinearColor", "Color", "Timespan", "DateTime", "Guid", "PerPlatformBool", "PerPlatformInt", "PerPlatformFloat",
    "MaterialAttributesInput", "ExpressionInput", "ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput", "WeightedRandomSampler",
    "SkeletalMeshSamplingLODBuiltData", "SkeletalMeshAreaWeightedTriangleSampler", "SoftAssetPath", "SoftObjectPath", "SoftClassPath", "StringAssetReference", "RichCurveKey", "ViewTargetBlendParams",
    "GameplayTagContainer", "SmartName", "FontCharacter", "UniqueNetIdRepl", "NiagaraVariable", "NiagaraVariableWithOffset", "FontData", "ClothLODData", "FloatRange", "MovieSceneEvalTemplatePtr",
    "MovieSceneTrackImplementationPtr", "MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneSequenceInstanceDataPtr", "SectionEvaluationDataTree", "MovieSceneTrackFieldData",
    "MovieSceneEventParameters", "MovieSceneFloatChannel", "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneSegment", "MovieSceneSegmentIdentifier", "MovieSceneTrackIdentifier",
    "MovieSceneSequenceID", "MovieSceneEvaluationKey",
];

/// Does this struct have its own binary layout in files of this version?
pub fn native(v: &Ver, s: &str) -> bool {
    match s {
        "RichCurveKey" => v.obj >= V_RICH_CURVE,
        "MovieSceneTrackIdentifier" => v.has(CV_MOVIE_META),
        "MovieSceneFloatChannel" => v.has(CV_FLOATCH) || v.has(CV_FLOATCH_SHOW),
        s => LEAVES.contains(&s),
    }
}
/// Types the version cannot contain.
pub fn impossible(v: &Ver, s: &str) -> bool {
    s == "FontData" && !v.has(CV_FONT_FACE)
}

const STRS: [Option<&str>; 5] = [Some("Text"), None, Some(""), Some("\u{fc}\u{4e2d}\u{1f600}"), Some("a\nb'\"")];
const INTS: [i32; 5] = [7, 0, -1, i32::MAX, i32::MIN];
const FLOATS: [f32; 5] = [1.5, 0.0, -0.0, f32::INFINITY, f32::MIN_POSITIVE];
const NAMES: [(&str, i32); 4] = [("SomeName", 0), ("SomeName", 5), ("None", 0), ("/Game/Pkg", 1)];

fn ptag(w: &mut W, c: &mut Ch, name: &str, ty: &str) -> (usize, Option<[u8; 16]>) {
    let (num, dup) = (c.of(&[0, 2]), c.of(&[0, 3]));
    let guid = if w.v.obj >= V_PROP_GUID { c.of(&[None, Some([0xab; 16])]) } else { None };
    w.rname(name, num);
    w.rname(ty, 0);
    let at = w.b.len();
    w.ri32(0);
    w.ri32(dup);
    w.t(ty);
    w.toks.push(Tok::N(name.into(), num));
    w.toks.push(Tok::I(dup as i64));
    w.toks.push(guid.map(|g| Tok::G(g.to_vec())).unwrap_or(Tok::S(None)));
    (at, guid)
}
fn pguid(w: &mut W, g: Option<[u8; 16]>) {
    if w.v.obj >= V_PROP_GUID {
        w.ru8(g.is_some() as u8);
        if let Some(g) = g {
            w.b.extend(g);
        }
    }
}

/// A complete tagged property.
pub fn tagged(w: &mut W, c: &mut Ch, name: &str, ty: &Ty) {
    let tn = match ty {
        P(s) => s,
        S(_) | L(..) => "StructProperty",
        Arr(_) => "ArrayProperty",
        Set(_) => "SetProperty",
        Map(..) => "MapProperty",
    };
    let (at, guid) = ptag(w, c, name, tn);
    let mut start = w.b.len();
    match ty {
        P("BoolProperty") => {
            let x = c.of(&[1u8, 0]);
            w.u8(x);
            pguid(w, guid);
            start = w.b.len();
        }
        P("ByteProperty") => {
            let k = c.pick(4);
            w.name(if k < 2 { "EByteEnum" } else { "None" }, 0);
            pguid(w, guid);
            start = w.b.len();
            match k {
                0 => w.name("EByteEnum::A", 0),
                1 => w.name("EByteEnum::A", 4),
                2 => w.u8(200),
                _ => w.u8(0),
            }
        }
        P("EnumProperty") => {
            let n = c.of(&["EEnum", "EEnum2"]);
            w.name(n, 0);
            pguid(w, guid);
            start = w.b.len();
            plain(w, c, "EnumProperty", 0);
        }
        P(s) if *s == "WeirdProperty" => {
            pguid(w, guid);
            start = w.b.len();
            let n = c.of(&[5usize, 0, 1, 40]);
            let x: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            w.raw(&x);
        }
        P(s) => {
            pguid(w, guid);
            start = w.b.len();
            plain(w, c, s, 0);
        }
        S(_) | L(..) => {
            let (s, inner) = parts(ty);
            w.name(s, 0);
            if w.v.obj >= V_STRUCT_GUID {
                let g = c.of(&[[0; 16], [0x11; 16]]);
                w.guid(g);
            }
            pguid(w, guid);
            start = w.b.len();
            if !native(w.v, s) && c.pick(6) == 5 {
                w.t("empty");
            } else {
                body_of(w, c, s, inner);
            }
        }
        Arr(e) => {
            let et = elem_type(e);
            w.name(et, 0);
            pguid(w, guid);
            start = w.b.len();
            let n = c.of(&[2usize, 0, 1, 3, 5, 9]);
            w.i32(n as i32);
            if let S(_) | L(..) = &**e {
                let (s, inner_ty) = parts(e);
                let mut len_at = None;
                if w.v.obj >= V_INNER_TAG {
                    let inner = c.of(&[name, "InnerName"]);
                    w.name(inner, 0);
                    w.rname("StructProperty", 0);
                    len_at = Some(w.b.len());
                    w.ri64(0);
                    w.name(s, 0);
                    let g = c.of(&[[0; 16], [0x22; 16]]);
                    w.guid(g);
                    if w.v.obj >= V_PROP_GUID {
                        w.ru8(0);
                    }
                }
                let b = w.b.len();
                for _ in 0..n {
                    w.t("StructProperty");
                    body_of(w, c, s, inner_ty);
                }
                if let Some(at) = len_at {
                    let l = (w.b.len() - b) as i32;
                    w.set_i32(at, l);
                }
            } else {
                let k = if **e == P("ByteProperty") { c.pick(2) } else { 0 };
                let same = n > 1 && c.pick(2) == 1;
                for i in 0..n {
                    elem(w, c, e, if same { 0 } else { i }, k);
                }
            }
        }
        Set(e) => {
            w.name(elem_type(e), 0);
            pguid(w, guid);
            start = w.b.len();
            let k = if **e == P("ByteProperty") { c.pick(2) } else { 0 };
            let (r, same) = c.of(&[(0usize, false), (1, false), (2, false), (2, true)]);
            w.i32(r as i32);
            for i in 0..r {
                elem(w, c, e, 10 + if same { 0 } else { i }, k);
            }
            let n = c.of(&[2usize, 0, 1, 3, 5]);
            w.i32(n as i32);
            for i in 0..n {
                elem(w, c, e, i, k);
            }
        }
        Map(kt, vt) => {
            w.name(elem_type(kt), 0);
            w.name(elem_type(vt), 0);
            pguid(w, guid);
            start = w.b.len();
            let kk = if **kt == P("ByteProperty") { c.pick(2) } else { 0 };
            let vk = if **vt == P("ByteProperty") { c.pick(2) } else { 0 };
            // the last choice removes the same key twice
            let (r, same) = c.of(&[(0usize, false), (1, false), (2, false), (2, true)]);
            w.i32(r as i32);
            for i in 0..r {
                elem(w, c, kt, 10 + if same { 0 } else { i }, kk);
            }
            let n = c.of(&[2usize, 0, 1, 3]);
            w.i32(n as i32);
            for i in 0..n {
                elem(w, c, kt, i, kk);
                elem(w, c, vt, 20 + i, vk);
            }
        }
    }
    let l = (w.b.len() - start) as i32;
    w.set_i32(at, if *ty == P("BoolProperty") { 0 } else { l });
}
fn parts(t: &Ty) -> (&'static str, Option<&Ty>) {
    match t {
        S(s) => (s, None),
        L(s, i) => (s, Some(i)),
        _ => unreachable!(),
    }
}
fn body_of(w: &mut W, c: &mut Ch, s: &str, inner: Option<&Ty>) {
    match inner {
        None => struct_body(w, c, s),
        Some(t) => list_as(w, c, &[("Inner", t.clone())]),
    }
}
fn elem_type(t: &Ty) -> &'static str {
    match t {
        P(s) => s,
        S(_) | L(..) => "StructProperty",
        _ => unreachable!(),
    }
}
/// Element of a container. `i` makes elements (map keys) different from each other.
fn elem(w: &mut W, c: &mut Ch, t: &Ty, i: usize, kind: usize) {
    match t {
        P("ByteProperty") => {
            w.t("ByteProperty");
            if kind == 0 {
                w.name(&format!("EByteEnum::V{i}"), 0);
            } else {
                // values whose bytes never look like a name reference
                w.u8(0xf0 + (i as u8 % 12));
            }
        }
        P(s) => {
            w.t(s);
            plain(w, c, s, i + 1);
        }
        S(_) | L(..) => {
            let (s, inner) = parts(t);
            w.t("StructProperty");
            SALT.with(|x| x.set(i as i32 + 1));
            body_of(w, c, s, inner);
            SALT.with(|x| x.set(0));
        }
        _ => unreachable!(),
    }
}
thread_local! { static SALT: std::cell::Cell<i32> = const { std::cell::Cell::new(0) }; }
fn salt() -> i32 {
    SALT.with(|x| x.get())
}

/// Value of a plain property; `i` != 0 selects a distinct value per position.
fn plain(w: &mut W, c: &mut Ch, s: &str, i: usize) {
    let d = i as i32 + salt() * 64;
    let ci = |c: &mut Ch| -> i32 {
        if d == 0 {
            c.of(&INTS)
        } else {
            c.of(&[d, -d])
        }
    };
    match s {
        "BoolProperty" => {
            let x = if d == 0 { c.of(&[1, 0]) } else { (d & 1) as u8 };
            w.u8(x)
        }
        "Int8Property" => {
            let x = ci(c);
            w.i8(x as i8)
        }
        "Int16Property" => {
            let x = ci(c);
            w.i16(x as i16)
        }
        "IntProperty" => {
            let x = ci(c);
            w.i32(x)
        }
        "Int64Property" => {
            let x = ci(c);
            w.i64((x as i64).wrapping_mul(0x1_0000_0001))
        }
        "UInt16Property" => {
            let x = ci(c);
            w.u16(x as u16)
        }
        "UInt32Property" => {
            let x = ci(c);
            w.u32(x as u32)
        }
        "UInt64Property" => {
            let x = ci(c);
            w.u64((x as i64).wrapping_mul(0x1_0000_0003) as u64)
        }
        "FloatProperty" => {
            let x = if d == 0 { c.of(&FLOATS) } else { d as f32 + 0.25 };
            w.f32(x)
        }
        "DoubleProperty" => {
            let x = if d == 0 { c.of(&[1.0 / 3.0, -0.0, f64::NEG_INFINITY, f64::NAN]) } else { d as f64 / 3.0 };
            w.f64(x)
        }
        "NameProperty" => {
            if d == 0 {
                let (n, k) = c.of(&NAMES);
                w.name(n, k)
            } else {
                let k = c.of(&[0, 3]);
                w.name(&format!("Name{d}"), k)
            }
        }
        "EnumProperty" => {
            let k = c.of(&[0, 9]);
            w.name(&format!("EEnum::V{d}"), k)
        }
        "StrProperty" | "AssetObjectProperty" => {
            if d == 0 {
                let x = c.of(&STRS);
                w.str(x)
            } else {
                let x = c.of(&[Some(format!("Str{d}")), Some(format!("\u{e9}{d}"))]);
                w.str(x.as_deref())
            }
        }
        "TextProperty" => text(w, c),
        "ObjectProperty" => {
            let x = if d == 0 { c.of(&[-1, 0, 1, i32::MIN]) } else { d };
            w.i32(x)
        }
        "SoftObjectProperty" => soft(w, c),
        "DelegateProperty" => delegate(w, c),
        "MulticastDelegateProperty" | "MulticastSparseDelegateProperty" | "MulticastInlineDelegateProperty" => {
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for _ in 0..n {
                delegate(w, c);
            }
        }
        "WeirdProperty" => w.raw(&[1, 2, 3, 4, 5][..1 + (i % 3)]),
        _ => unreachable!("{s}"),
    }
}
fn delegate(w: &mut W, c: &mut Ch) {
    let x = c.of(&[-1, 0, i32::MAX]);
    w.i32(x);
    let (n, k) = c.of(&[("OnEvent", 0), ("OnEvent", 2), ("None", 0)]);
    w.name(n, k);
}
fn soft(w: &mut W, c: &mut Ch) {
    if w.v.ue5 >= U_SOFT_FNAMES {
        let (n, k) = c.of(&[("/Game/SoftPkg", 0), ("None", 0), ("/Game/SoftPkg", 3)]);
        w.name(n, k);
    }
    let (n, k) = c.of(&[("SoftAsset", 0), ("None", 0), ("SoftAsset", 3)]);
    w.name(n, k);
    let s = c.of(&[Some("Sub.Path"), None, Some(""), Some("\u{e4}")]);
    w.str(s);
}
fn text(w: &mut W, c: &mut Ch) {
    if w.v.obj < V_TEXT_HISTORY {
        let s = c.of(&STRS);
        w.str(s); // invariant string
        if w.v.obj >= V_TEXT_NAMESPACE {
            let s = c.of(&[Some("Ns"), None, Some("")]);
            w.str(s);
        }
        let s = c.of(&[Some("Value"), None, Some("\u{4e2d}")]);
        w.str(s);
        let f = c.of(&[0u32, 5, u32::MAX]);
        w.u32(f);
        return;
    }
    let f = c.of(&[0u32, 8, u32::MAX]);
    w.u32(f);
    let h = c.of(&[0i8, -1, 11]);
    w.i8(h);
    match h {
        0 => {
            let s = c.of(&[Some("Ns"), None, Some("")]);
            w.str(s);
            let s = c.of(&STRS);
            w.str(s);
            let s = c.of(&[Some("Source"), None, Some("\u{e9}")]);
            w.str(s);
        }
        -1 => {
            if w.v.has(CV_CULTURE_INV) {
                let has = c.of(&[1, 0]);
                w.ri32(has);
                let s = if has == 1 { c.of(&[Some("Inv"), Some("\u{e9}")]) } else { None };
                if has == 1 {
                    w.str(s);
                } else {
                    w.toks.push(Tok::S(None));
                }
            }
        }
        _ => {
            let (n, k) = c.of(&[("TableId", 0), ("TableId", 1)]);
            w.name(n, k);
            let s = c.of(&STRS);
            w.str(s);
        }
    }
}

/// None-terminated list of tagged properties.
pub fn list(w: &mut W, c: &mut Ch) {
    list_as(w, c, &[("ListInt", P("IntProperty")), ("ListName", P("NameProperty")), ("ListVec", S("Vector"))]);
}
pub fn list_as(w: &mut W, c: &mut Ch, props: &[(&str, Ty)]) {
    w.t("{");
    // at most one of several elements (map keys) may be empty: keys are unique
    let least = usize::from(salt() > 1);
    let n = props.len() - c.pick(props.len() + 1 - least);
    for (name, ty) in &props[..n] {
        tagged(w, c, name, ty);
    }
    w.t("}");
    w.rname("None", 0);
}

/// Body of a struct value without its header.
pub fn struct_body(w: &mut W, c: &mut Ch, s: &str) {
    if native(w.v, s) {
        if s == "FloatRange" && c.pick(2) == 1 {
            // the reflected form starts with its LowerBound
            w.t("{");
            tagged(w, c, "LowerBound", &P("FloatProperty"));
            tagged(w, c, "UpperBound", &P("FloatProperty"));
            w.t("}");
            w.rname("None", 0);
            return;
        }
        w.t(s);
        leaf(w, c, s);
    } else {
        list(w, c);
    }
}

fn floats(w: &mut W, c: &mut Ch, n: usize) {
    for i in 0..n {
        let x = if i == 0 && salt() == 0 { c.of(&FLOATS) } else { i as f32 * 2.0 + 0.5 + salt() as f32 };
        w.f32(x);
    }
}
fn fps(w: &mut W, c: &mut Ch, n: usize) {
    for i in 0..n {
        let x = if i == 0 && salt() == 0 { c.of(&[1.25f32, -0.0, f32::NEG_INFINITY]) } else { i as f32 * 3.0 - 0.5 + salt() as f32 };
        if w.v.lwc() {
            w.f64(x as f64 * 1.1)
        } else {
            w.f32(x)
        }
    }
}
fn int(w: &mut W, c: &mut Ch) {
    let x = if salt() == 0 { c.of(&[7, 0, -1, i32::MAX, i32::MIN]) } else { salt() };
    w.i32(x);
}
fn range(w: &mut W, c: &mut Ch) {
    for k in 0..2 {
        let t = c.of(&[1i8, 0, 2]);
        w.i8(t);
        let x = c.of(&[10 + k, -5, i32::MIN]);
        w.i32(x);
    }
}
fn tree(w: &mut W, c: &mut Ch, item: &mut dyn FnMut(&mut W, &mut Ch)) {
    fn node(w: &mut W, c: &mut Ch) {
        range(w, c);
        w.i32(1);
        w.i32(2);
        int(w, c);
        w.i32(-1);
    }
    fn entries(w: &mut W, c: &mut Ch) {
        let n = c.of(&[1, 0, 2]);
        w.i32(n);
        for i in 0..n {
            w.i32(i);
            w.i32(i + 5);
            w.i32(i + 9);
        }
    }
    node(w, c);
    entries(w, c);
    let n = c.of(&[2, 0, 1]);
    w.i32(n);
    for _ in 0..n {
        node(w, c);
    }
    entries(w, c);
    let n = c.of(&[2, 0, 1, 3]);
    w.i32(n);
    for _ in 0..n {
        item(w, c);
    }
}
fn float_value(w: &mut W, c: &mut Ch) {
    floats(w, c, 5);
    for _ in 0..3 {
        let x = c.of(&[0i8, 1, 2, 3]);
        w.i8(x);
    }
}
fn sampler(w: &mut W, c: &mut Ch) {
    let n = c.of(&[2, 0, 1]);
    w.i32(n);
    for i in 0..n {
        w.f32(i as f32 + 0.125);
    }
    let n = c.of(&[1, 0, 3]);
    w.i32(n);
    for i in 0..n {
        w.i32(i - 1);
    }
    floats(w, c, 1);
}
fn material(w: &mut W, c: &mut Ch) {
    int(w, c);
    let (n, k) = c.of(&[("InputName", 0), ("InputName", 2)]);
    w.name(n, k);
    let e: Vec<u8> = if c.pick(2) == 0 { (0..20u32).map(|i| (i * 13) as u8).collect() } else { vec![0; 20] };
    w.raw(&e);
    let (n, k) = c.of(&[("ExprName", 0), ("ExprName", 2)]);
    w.name(n, k);
}
fn use_constant(w: &mut W, c: &mut Ch) {
    let x = c.of(&[0, 1]);
    w.ri32(x);
}

/// A natively serialized struct.
fn leaf(w: &mut W, c: &mut Ch, s: &str) {
    match s {
        "Vector" | "Rotator" => fps(w, c, 3),
        "Vector2D" => fps(w, c, 2),
        "Vector4" | "Quat" | "Plane" => fps(w, c, 4),
        "IntPoint" => {
            int(w, c);
            w.i32(-3);
        }
        "Box" => {
            fps(w, c, 6);
            let b = c.of(&[1u8, 0]);
            w.u8(b);
        }
        "Box2D" => {
            fps(w, c, 4);
            let b = c.of(&[1u8, 0]);
            w.u8(b);
        }
        "LinearColor" => floats(w, c, 4),
        "Color" => {
            let x = c.of(&[[1u8, 2, 3, 4], [255, 0, 0, 0], [0, 0, 0, 128]]);
            w.b.extend(x); // b g r a
            for k in [2, 1, 0, 3] {
                w.toks.push(Tok::I(x[k] as i64));
            }
        }
        "Timespan" | "DateTime" => {
            let x = if salt() == 0 { c.of(&[0x1122334455667788i64, 0, -1, i64::MIN]) } else { salt() as i64 };
            w.i64(x);
        }
        "Guid" => {
            let mut g: [u8; 16] = std::array::from_fn(|i| i as u8 * 3 + 1);
            if salt() == 0 {
                g = c.of(&[g, [0; 16], [0xff; 16]]);
            }
            g[0] = g[0].wrapping_add(salt() as u8);
            w.guid(g);
        }
        "PerPlatformBool" => {
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for i in 0..n {
                w.u8((i == 0) as u8);
            }
        }
        "PerPlatformInt" => {
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for i in 0..n {
                w.i32(i - 7);
            }
        }
        "PerPlatformFloat" => {
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for i in 0..n {
                w.f32(i as f32 + 0.75);
            }
        }
        "MaterialAttributesInput" | "ExpressionInput" => material(w, c),
        "ColorMaterialInput" => {
            material(w, c);
            use_constant(w, c);
            leaf(w, c, "Color");
        }
        "ScalarMaterialInput" => {
            material(w, c);
            use_constant(w, c);
            floats(w, c, 1);
        }
        "ShadingModelMaterialInput" => {
            material(w, c);
            use_constant(w, c);
            let x = c.of(&[3u32, u32::MAX]);
            w.u32(x);
        }
        "VectorMaterialInput" => {
            material(w, c);
            use_constant(w, c);
            fps(w, c, 3);
        }
        "Vector2MaterialInput" => {
            material(w, c);
            use_constant(w, c);
            fps(w, c, 2);
        }
        "WeightedRandomSampler" | "SkeletalMeshSamplingLODBuiltData" | "SkeletalMeshAreaWeightedTriangleSampler" => sampler(w, c),
        "SoftAssetPath" | "SoftObjectPath" | "SoftClassPath" | "StringAssetReference" => {
            if w.v.obj < V_SOFT_PATH {
                let x = c.of(&STRS);
                w.str(x);
            } else {
                soft(w, c);
            }
        }
        "RichCurveKey" => {
            for _ in 0..3 {
                let x = c.of(&[0i8, 1, 2, 3]);
                w.i8(x);
            }
            floats(w, c, 6);
        }
        "ViewTargetBlendParams" => {
            floats(w, c, 1);
            let x = c.of(&[0u8, 1, 4, 5]);
            w.u8(x);
            floats(w, c, 1);
            let x = c.of(&[1, 0]);
            w.i32(x);
        }
        "GameplayTagContainer" => {
            let n = c.of(&[2, 0, 1]);
            w.i32(n);
            for i in 0..n {
                let k = c.of(&[0, 4]);
                w.name(&format!("Tag.{i}"), k);
            }
        }
        "SmartName" => {
            let (n, k) = c.of(&[("Smart", 0), ("Smart", 1)]);
            w.name(n, k);
            if !w.v.has(CV_SMART_UID) {
                let x = c.of(&[513u16, 0, u16::MAX]);
                w.u16(x);
            }
            if !w.v.has(CV_SMART_REF) {
                let g = c.of(&[[0x33; 16], [0; 16]]);
                w.guid(g);
            }
        }
        "FontCharacter" => {
            int(w, c);
            w.i32(2);
            w.i32(3);
            w.i32(4);
            w.u8(250);
            int(w, c);
        }
        "UniqueNetIdRepl" => {
            if c.pick(2) == 1 {
                w.ri32(0);
                w.t("invalid");
            } else {
                let at = w.b.len();
                w.ri32(0);
                let (n, k) = c.of(&[("STEAM", 0), ("STEAM", 1)]);
                w.name(n, k);
                let s = c.of(&[Some("765611"), Some("")]);
                w.str(s);
                let l = c.of(&[8, 1, i32::MAX]);
                w.set_i32(at, l);
            }
        }
        "NiagaraVariable" | "NiagaraVariableWithOffset" => {
            let (n, k) = c.of(&[("NiagaraVar", 0), ("NiagaraVar", 6)]);
            let n = if salt() != 0 { format!("{n}{}", salt()) } else { n.into() };
            w.name(&n, k);
            list(w, c);
            int(w, c);
        }
        "FontData" => {
            let cooked = c.of(&[1, 0]);
            w.ri32(cooked);
            if cooked == 1 {
                let o = c.of(&[0, -2]);
                w.ri32(o);
                if o == 0 {
                    let s = c.of(&STRS);
                    put_fstring(&mut w.b, s);
                    let h = c.of(&[1u8, 0, 4]);
                    w.ru8(h);
                    let h = c.of(&[2u8, 0, 1]);
                    w.ru8(h);
                }
                let x = c.of(&[0, 3, -1]);
                w.ri32(x);
            }
        }
        "ClothLODData" => {
            list(w, c);
            for _ in 0..2 {
                let n = c.of(&[1, 0, 2]);
                w.i32(n);
                for i in 0..n {
                    for k in 0..12 {
                        let x = (i * 20 + k) as f32 * 0.5;
                        w.fp(x);
                    }
                    for k in 0..4 {
                        w.u16(k * 1000 + 1);
                    }
                    floats(w, c, 1);
                    w.ri32(0);
                }
            }
        }
        "FloatRange" => {
            let x = c.of(&[1.5f32, -3.25, 1e9]);
            w.f32(x);
            let x = c.of(&[2.5f32, 0.0]);
            w.f32(x);
        }
        "MovieSceneEvalTemplatePtr" | "MovieSceneTrackImplementationPtr" => {
            let s = c.of(&[Some("/Script/MovieSceneTracks.Template"), None, Some("\u{e9}")]);
            w.str(s);
            if s.is_some() {
                list(w, c);
            } else {
                w.t("{");
                w.t("}");
            }
        }
        "MovieSceneEvaluationFieldEntityTree" => tree(w, c, &mut |w, c| {
            int(w, c);
            w.i32(4);
        }),
        "MovieSceneSubSequenceTree" => tree(w, c, &mut |w, c| {
            w.u32(0xfeedbeef);
            let x = c.of(&[0u8, 1, 2]);
            w.u8(x);
        }),
        "SectionEvaluationDataTree" => tree(w, c, &mut |w, c| list(w, c)),
        "MovieSceneTrackFieldData" => tree(w, c, &mut |w, c| {
            let x = c.of(&[5u32, u32::MAX]);
            w.u32(x);
        }),
        "MovieSceneSequenceInstanceDataPtr" | "MovieSceneSegmentIdentifier" => int(w, c),
        "MovieSceneEventParameters" => {
            soft(w, c);
            let n = c.of(&[3usize, 0, 1]);
            w.ri32(n as i32);
            w.raw(&vec![0x5c; n]);
        }
        "MovieSceneFloatChannel" => {
            for _ in 0..2 {
                let x = c.of(&[4u8, 0, 5]);
                w.u8(x);
            }
            w.i32(4);
            let n = c.of(&[2, 0, 1]);
            w.i32(n);
            for i in 0..n {
                w.i32(i * 100 - 5);
            }
            w.i32(28);
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for _ in 0..n {
                float_value(w, c);
            }
            floats(w, c, 1);
            let x = c.of(&[1, 0]);
            w.i32(x);
            w.i32(24000);
            int(w, c);
        }
        "MovieSceneFloatValue" => float_value(w, c),
        "MovieSceneFrameRange" => range(w, c),
        "MovieSceneSegment" => {
            range(w, c);
            int(w, c);
            let x = c.of(&[1, 0]);
            w.i32(x);
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for _ in 0..n {
                list(w, c);
            }
        }
        "MovieSceneTrackIdentifier" | "MovieSceneSequenceID" => {
            let x = if salt() == 0 { c.of(&[9u32, 0, u32::MAX]) } else { salt() as u32 };
            w.u32(x);
        }
        "MovieSceneEvaluationKey" => {
            w.u32(1);
            let x = c.of(&[2u32, u32::MAX]);
            w.u32(x);
            w.u32(3);
        }
        _ => unreachable!("{s}"),
    }
}

// ---- what the library read -------------------------------------------------------------------

fn i(o: &mut Vec<Tok>, x: impl Into<i64>) {
    o.push(Tok::I(x.into()))
}
fn f(o: &mut Vec<Tok>, x: f32) {
    o.push(Tok::F((x as f64).to_bits()))
}
fn d(o: &mut Vec<Tok>, x: f64) {
    o.push(Tok::F(x.to_bits()))
}
fn st(o: &mut Vec<Tok>, s: &Option<String>) {
    o.push(Tok::S(s.clone()))
}
fn pi(o: &mut Vec<Tok>, p: &PackageIndex) {
    i(o, p.index)
}
fn softp(o: &mut Vec<Tok>, p: &SoftObjectPath) {
    if let Some(n) = &p.asset_path.package_name {
        o.push(fname(n));
    }
    o.push(fname(&p.asset_path.asset_name));
    st(o, &p.sub_path_string);
}
fn softv(o: &mut Vec<Tok>, p: &SoftObjectPathPropertyValue) {
    match p {
        SoftObjectPathPropertyValue::Old(s) => st(o, s),
        SoftObjectPathPropertyValue::New(p) => softp(o, p),
    }
}
fn wrange(o: &mut Vec<Tok>, r: &FFrameNumberRange) {
    for b in [&r.lower_bound, &r.upper_bound] {
        i(o, b.ty as i8);
        i(o, b.value.value);
    }
}
fn wtree<T: Clone + Default + std::fmt::Debug + PartialEq + Eq + std::hash::Hash>(o: &mut Vec<Tok>, t: &TMovieSceneEvaluationTree<T>, item: &mut dyn FnMut(&mut Vec<Tok>, &T)) {
    fn node(o: &mut Vec<Tok>, n: &MovieSceneEvaluationTreeNode) {
        wrange(o, &n.range);
        i(o, n.parent.children_handle.entry_index);
        i(o, n.parent.index);
        i(o, n.children_id.entry_index);
        i(o, n.data_id.entry_index);
    }
    fn entries(o: &mut Vec<Tok>, e: &[FEntry]) {
        i(o, e.len() as i64);
        for e in e {
            i(o, e.start_index);
            i(o, e.size);
            i(o, e.capacity);
        }
    }
    node(o, &t.root_node);
    entries(o, &t.child_nodes.entries);
    i(o, t.child_nodes.items.len() as i64);
    for n in &t.child_nodes.items {
        node(o, n);
    }
    entries(o, &t.data.entries);
    i(o, t.data.items.len() as i64);
    for n in &t.data.items {
        item(o, n);
    }
}
fn wmat(o: &mut Vec<Tok>, m: &MaterialExpression) {
    i(o, m.output_index);
    o.push(fname(&m.input_name));
    o.push(Tok::G(m.extras.clone()));
    o.push(fname(&m.expression_name));
}
fn wfv(o: &mut Vec<Tok>, v: &MovieSceneFloatValue) {
    f(o, v.value.0);
    f(o, v.tangent.arrive_tangent.0);
    f(o, v.tangent.leave_tangent.0);
    f(o, v.tangent.arrive_tangent_weight.0);
    f(o, v.tangent.leave_tangent_weight.0);
    i(o, v.tangent.tangent_weight_mode as i8);
    i(o, v.interp_mode as i8);
    i(o, v.tangent_mode as i8);
}
fn v3(o: &mut Vec<Tok>, v: &VectorProperty) {
    d(o, v.value.x.0);
    d(o, v.value.y.0);
    d(o, v.value.z.0);
}
fn v2(o: &mut Vec<Tok>, v: &Vector2DProperty) {
    d(o, v.value.x.0);
    d(o, v.value.y.0);
}
fn v4(o: &mut Vec<Tok>, v: &Vector4Property) {
    d(o, v.value.x.0);
    d(o, v.value.y.0);
    d(o, v.value.z.0);
    d(o, v.value.w.0);
}
pub fn walk_list(l: &[Property], v: &Ver, o: &mut Vec<Tok>) {
    o.push(Tok::T("{".into()));
    for p in l {
        walk(p, true, v, o);
    }
    o.push(Tok::T("}".into()));
}
fn wtext(t: &TextProperty, v: &Ver, o: &mut Vec<Tok>) {
    if v.obj < V_TEXT_HISTORY {
        st(o, &t.culture_invariant_string);
        if v.obj >= V_TEXT_NAMESPACE {
            st(o, &t.namespace);
        }
        st(o, &t.value);
        i(o, t.flags);
        return;
    }
    i(o, t.flags);
    let h = t.history_type as i8;
    i(o, h);
    match h {
        0 => {
            st(o, &t.namespace);
            st(o, &t.value);
            st(o, &t.culture_invariant_string);
        }
        -1 => {
            if v.has(CV_CULTURE_INV) {
                st(o, &t.culture_invariant_string);
            }
        }
        _ => {
            o.push(t.table_id.as_ref().map(fname).unwrap_or(Tok::S(None)));
            st(o, &t.value);
        }
    }
}
/// The single natively serialized value of a struct, if that is what it holds.
fn native_value(l: &[Property]) -> Option<&Property> {
    match l {
        [p] if LEAVES.contains(&p.to_serialized_name().as_str()) && !matches!(p, Property::UnknownProperty(_)) => Some(p),
        _ => None,
    }
}
pub fn walk_struct_value(s: &unreal_asset::properties::struct_property::StructProperty, v: &Ver, o: &mut Vec<Tok>) {
    wstruct(&s.value, s.serialize_none, v, o)
}
fn wstruct(l: &[Property], serialize_none: bool, v: &Ver, o: &mut Vec<Tok>) {
    match native_value(l) {
        Some(p) => walk(p, false, v, o),
        None if l.is_empty() && !serialize_none => o.push(Tok::T("empty".into())),
        None => walk_list(l, v, o),
    }
}
pub fn walk(p: &Property, hdr: bool, v: &Ver, o: &mut Vec<Tok>) {
    o.push(Tok::T(p.to_serialized_name()));
    if hdr {
        o.push(fname(&p.get_name()));
        i(o, p.get_duplication_index());
        o.push(p.get_property_guid().map(|g| Tok::G(g.0.to_vec())).unwrap_or(Tok::S(None)));
    }
    let optn = |n: &Option<unreal_asset::types::FName>| n.as_ref().map(fname).unwrap_or(Tok::S(None));
    use Property::*;
    match p {
        BoolProperty(p) => i(o, p.value as i64),
        UInt16Property(p) => i(o, p.value),
        UInt32Property(p) => i(o, p.value),
        UInt64Property(p) => i(o, p.value as i64),
        FloatProperty(p) => f(o, p.value.0),
        Int16Property(p) => i(o, p.value),
        Int64Property(p) => i(o, p.value),
        Int8Property(p) => i(o, p.value),
        IntProperty(p) => i(o, p.value),
        ByteProperty(p) => {
            if hdr {
                o.push(optn(&p.enum_type));
            }
            match &p.value {
                BytePropertyValue::Byte(b) => i(o, *b),
                BytePropertyValue::FName(n) => o.push(fname(n)),
            }
        }
        DoubleProperty(p) => d(o, p.value.0),
        NameProperty(p) => o.push(fname(&p.value)),
        StrProperty(p) => st(o, &p.value),
        TextProperty(p) => wtext(p, v, o),
        ObjectProperty(p) => pi(o, &p.value),
        AssetObjectProperty(p) => st(o, &p.value),
        SoftObjectProperty(p) => softp(o, &p.value),
        IntPointProperty(p) => {
            i(o, p.value.x);
            i(o, p.value.y);
        }
        VectorProperty(p) => v3(o, p),
        Vector4Property(p) => v4(o, p),
        Vector2DProperty(p) => v2(o, p),
        BoxProperty(p) => {
            v3(o, &p.v1);
            v3(o, &p.v2);
            i(o, p.is_valid as i64);
        }
        Box2DProperty(p) => {
            v2(o, &p.v1);
            v2(o, &p.v2);
            i(o, p.is_valid as i64);
        }
        QuatProperty(p) => [p.value.x, p.value.y, p.value.z, p.value.w].map(|x| d(o, x.0)).into_iter().collect(),
        RotatorProperty(p) => [p.value.x, p.value.y, p.value.z].map(|x| d(o, x.0)).into_iter().collect(),
        PlaneProperty(p) => [p.value.x, p.value.y, p.value.z, p.value.w].map(|x| d(o, x.0)).into_iter().collect(),
        LinearColorProperty(p) => [p.color.r, p.color.g, p.color.b, p.color.a].map(|x| f(o, x.0)).into_iter().collect(),
        ColorProperty(p) => [p.color.r, p.color.g, p.color.b, p.color.a].map(|x| i(o, x)).into_iter().collect(),
        TimeSpanProperty(p) => i(o, p.ticks),
        DateTimeProperty(p) => i(o, p.ticks),
        GuidProperty(p) => o.push(Tok::G(p.value.0.to_vec())),
        SetProperty(p) => {
            o.push(optn(&p.array_type));
            for l in [&p.removed_items.value, &p.value.value] {
                i(o, l.len() as i64);
                for x in l {
                    walk_elem(x, v, o);
                }
            }
        }
        ArrayProperty(p) => {
            o.push(optn(&p.array_type));
            i(o, p.value.len() as i64);
            if p.array_type.as_ref().is_some_and(|t| *t == "StructProperty") && v.obj >= V_INNER_TAG {
                let first = match p.value.first() {
                    Some(StructProperty(s)) => Some(s),
                    _ => p.dummy_property.as_ref(),
                };
                match first {
                    None => o.push(Tok::T("no inner tag".into())),
                    Some(s) => {
                        o.push(fname(&s.name));
                        o.push(optn(&s.struct_type));
                        o.push(s.struct_guid.map(|g| Tok::G(g.0.to_vec())).unwrap_or(Tok::S(None)));
                    }
                }
            }
            for x in &p.value {
                walk_elem(x, v, o);
            }
        }
        MapProperty(p) => {
            o.push(fname(&p.key_type));
            o.push(fname(&p.value_type));
            let r = p.keys_to_remove.as_deref().unwrap_or(&[]);
            i(o, r.len() as i64);
            for x in r {
                walk_elem(x, v, o);
            }
            i(o, p.value.len() as i64);
            for (_, k, x) in &p.value {
                walk_elem(k, v, o);
                walk_elem(x, v, o);
            }
        }
        PerPlatformBoolProperty(p) => {
            i(o, p.value.len() as i64);
            p.value.iter().for_each(|x| i(o, *x as i64));
        }
        PerPlatformIntProperty(p) => {
            i(o, p.value.len() as i64);
            p.value.iter().for_each(|x| i(o, *x));
        }
        PerPlatformFloatProperty(p) => {
            i(o, p.value.len() as i64);
            p.value.iter().for_each(|x| f(o, x.0));
        }
        MaterialAttributesInputProperty(p) => wmat(o, &p.material_expression),
        ExpressionInputProperty(p) => wmat(o, &p.material_expression),
        ColorMaterialInputProperty(p) => {
            wmat(o, &p.material_expression);
            let c = &p.value.color;
            [c.r, c.g, c.b, c.a].map(|x| i(o, x)).into_iter().collect()
        }
        ScalarMaterialInputProperty(p) => {
            wmat(o, &p.material_expression);
            f(o, p.value.0);
        }
        ShadingModelMaterialInputProperty(p) => {
            wmat(o, &p.material_expression);
            i(o, p.value);
        }
        VectorMaterialInputProperty(p) => {
            wmat(o, &p.material_expression);
            v3(o, &p.value);
        }
        Vector2MaterialInputProperty(p) => {
            wmat(o, &p.material_expression);
            v2(o, &p.value);
        }
        WeightedRandomSamplerProperty(p) => wsampler(o, &p.prob, &p.alias, p.total_weight.0),
        SkeletalMeshSamplingLODBuiltDataProperty(p) => wsampler(o, &p.sampler_property.prob, &p.sampler_property.alias, p.sampler_property.total_weight.0),
        SkeletalMeshAreaWeightedTriangleSampler(p) => wsampler(o, &p.prob, &p.alias, p.total_weight.0),
        SoftAssetPathProperty(p) => softv(o, &p.value),
        SoftObjectPathProperty(p) => softv(o, &p.value),
        SoftClassPathProperty(p) => softv(o, &p.value),
        StringAssetReferenceProperty(p) => softv(o, &p.value),
        DelegateProperty(p) => {
            pi(o, &p.value.object);
            o.push(fname(&p.value.delegate));
        }
        MulticastDelegateProperty(p) => wdel(o, &p.value),
        MulticastSparseDelegateProperty(p) => wdel(o, &p.value),
        MulticastInlineDelegateProperty(p) => wdel(o, &p.value),
        RichCurveKeyProperty(p) => {
            i(o, p.interp_mode as i8);
            i(o, p.tangent_mode as i8);
            i(o, p.tangent_weight_mode as i8);
            [p.time, p.value, p.arrive_tangent, p.arrive_tangent_weight, p.leave_tangent, p.leave_tangent_weight].map(|x| f(o, x.0)).into_iter().collect()
        }
        ViewTargetBlendParamsProperty(p) => {
            f(o, p.blend_time.0);
            i(o, p.blend_function as u8);
            f(o, p.blend_exp.0);
            i(o, p.lock_outgoing as i64);
        }
        GameplayTagContainerProperty(p) => {
            i(o, p.value.len() as i64);
            p.value.iter().for_each(|x| o.push(fname(x)));
        }
        SmartNameProperty(p) => {
            o.push(fname(&p.display_name));
            if let Some(x) = p.smart_name_id {
                i(o, x);
            }
            if let Some(g) = &p.temp_guid {
                o.push(Tok::G(g.0.to_vec()));
            }
        }
        StructProperty(p) => {
            o.push(optn(&p.struct_type));
            if v.obj >= V_STRUCT_GUID {
                o.push(p.struct_guid.map(|g| Tok::G(g.0.to_vec())).unwrap_or(Tok::S(None)));
            }
            wstruct(&p.value, p.serialize_none, v, o);
        }
        EnumProperty(p) => {
            if hdr {
                o.push(optn(&p.enum_type));
            }
            o.push(optn(&p.value));
        }
        ClothLodDataProperty(p) => {
            walk_list(&p.struct_property.value, v, o);
            for l in [&p.transition_up_skin_data, &p.transition_down_skin_data] {
                i(o, l.len() as i64);
                for m in l {
                    v4(o, &m.position_bary_coords_and_dist);
                    v4(o, &m.normal_bary_coords_and_dist);
                    v4(o, &m.tangent_bary_coords_and_dist);
                    m.source_mesh_vert_indices.iter().for_each(|x| i(o, *x));
                    f(o, m.weight.0);
                }
            }
        }
        FontCharacterProperty(p) => {
            let c = &p.value;
            for x in [c.start_u, c.start_v, c.size_u, c.size_v, c.texture_index as i32, c.vertical_offset] {
                i(o, x);
            }
        }
        UniqueNetIdProperty(p) => match &p.value {
            None => o.push(Tok::T("invalid".into())),
            Some(u) => {
                o.push(fname(&u.ty));
                st(o, &u.contents);
            }
        },
        NiagaraVariableProperty(p) => wniagara(o, p, v),
        NiagaraVariableWithOffsetProperty(p) => wniagara(o, &p.niagara_variable, v),
        FontDataProperty(_) => {}
        FloatRangeProperty(p) => {
            f(o, p.lower_bound.0);
            f(o, p.upper_bound.0);
        }
        RawStructProperty(p) => o.push(Tok::G(p.value.clone())),
        MovieSceneEvalTemplatePtrProperty(p) => wptr(o, &p.value, v),
        MovieSceneTrackImplementationPtrProperty(p) => wptr(o, &p.value, v),
        MovieSceneEvaluationFieldEntityTreeProperty(p) => wtree(o, &p.value.serialized_data, &mut |o, x| {
            i(o, x.entity_index);
            i(o, x.meta_data_index);
        }),
        MovieSceneSubSequenceTreeProperty(p) => wtree(o, &p.value.data, &mut |o, x| {
            i(o, x.sequence_id.value);
            i(o, x.flags as u8);
        }),
        MovieSceneSequenceInstanceDataPtrProperty(p) => pi(o, &p.value),
        SectionEvaluationDataTreeProperty(p) => wtree(o, &p.value.tree, &mut |o, x| walk_list(x, v, o)),
        MovieSceneTrackFieldDataProperty(p) => wtree(o, &p.value.field, &mut |o, x| i(o, x.value)),
        MovieSceneEventParametersProperty(p) => {
            softp(o, &p.value.struct_type);
            o.push(Tok::G(p.value.struct_bytes.clone()));
        }
        MovieSceneFloatChannelProperty(p) => {
            let c = &p.value;
            i(o, c.pre_infinity_extrap as u8);
            i(o, c.post_infinity_extrap as u8);
            i(o, c.times_struct_length);
            i(o, c.times.len() as i64);
            c.times.iter().for_each(|x| i(o, x.value));
            i(o, c.values_struct_length);
            i(o, c.values.len() as i64);
            c.values.iter().for_each(|x| wfv(o, x));
            f(o, c.default_value.0);
            i(o, c.has_default_value as i64);
            i(o, c.tick_resolution.numerator);
            i(o, c.tick_resolution.denominator);
        }
        MovieSceneFloatValueProperty(p) => wfv(o, &p.value),
        MovieSceneFrameRangeProperty(p) => {
            for b in [&p.lower_bound, &p.upper_bound] {
                i(o, b.ty as i8);
                i(o, b.value);
            }
        }
        MovieSceneSegmentProperty(p) => {
            wrange(o, &p.value.range);
            i(o, p.value.id.identifier_index);
            i(o, p.value.allow_empty as i64);
            i(o, p.value.impls.len() as i64);
            for l in &p.value.impls {
                walk_list(l, v, o);
            }
        }
        MovieSceneSegmentIdentifierProperty(p) => i(o, p.value.identifier_index),
        MovieSceneTrackIdentifierProperty(p) => i(o, p.value.value),
        MovieSceneSequenceIdProperty(p) => i(o, p.value.value),
        MovieSceneEvaluationKeyProperty(p) => {
            i(o, p.value.sequence_id.value);
            i(o, p.value.track_identifier.value);
            i(o, p.value.section_index);
        }
        EmptyProperty(_) => o.push(Tok::T("empty property".into())),
        UnknownProperty(p) => o.push(Tok::G(p.value.clone())),
    }
}
fn walk_elem(p: &Property, v: &Ver, o: &mut Vec<Tok>) {
    if let Property::StructProperty(s) = p {
        o.push(Tok::T("StructProperty".into()));
        wstruct(&s.value, s.serialize_none, v, o);
    } else {
        walk(p, false, v, o);
    }
}
fn wsampler(o: &mut Vec<Tok>, p: &[impl std::ops::Deref<Target = f32>], a: &[i32], t: f32) {
    i(o, p.len() as i64);
    p.iter().for_each(|x| f(o, **x));
    i(o, a.len() as i64);
    a.iter().for_each(|x| i(o, *x));
    f(o, t);
}
fn wdel(o: &mut Vec<Tok>, l: &[unreal_asset::properties::delegate_property::Delegate]) {
    i(o, l.len() as i64);
    for x in l {
        pi(o, &x.object);
        o.push(fname(&x.delegate));
    }
}
fn wniagara(o: &mut Vec<Tok>, p: &unreal_asset::properties::niagara::niagara_variable_property::NiagaraVariableProperty, v: &Ver) {
    o.push(fname(&p.variable_name));
    walk_list(&p.struct_property.value, v, o);
    i(o, p.variable_offset);
}
fn wptr(o: &mut Vec<Tok>, l: &[Property], v: &Ver) {
    match l.first() {
        Some(Property::StrProperty(s)) => st(o, &s.value),
        None => st(o, &None),
        _ => o.push(Tok::T("no type name".into())),
    }
    walk_list(l.get(1..).unwrap_or(&[]), v, o);
}
