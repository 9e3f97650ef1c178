//! Reference layout of the export kinds that follow the tagged property list with data of their own,
//! and the walker that lists what the library understood of them.
use crate::pkg::*;
use crate::props::{Ty::*, *};
use crate::uasset::*;
use unreal_asset::exports::properties::fproperty::*;
use unreal_asset::exports::properties::uproperty::*;
use unreal_asset::exports::*;
use unreal_asset::types::PackageIndex;

pub const OBJ_FLAGS: [u32; 3] = [0x1, 0, 0x0fff_ffff];
pub const PROP_FLAGS: [u64; 3] = [0x5, 0, 0x00ff_ffdf_fb2f_6fff];
const IDX: [i32; 4] = [-2, 0, 1, i32::MIN];

fn idx(w: &mut W, c: &mut Ch) {
    let x = c.of(&IDX);
    w.i32(x);
}
fn idxs(w: &mut W, c: &mut Ch) {
    let l = c.of(&[vec![1, -1], vec![], vec![0], vec![3, -2, i32::MAX]]);
    w.i32(l.len() as i32);
    for x in l {
        w.i32(x);
    }
}
fn flag(w: &mut W, c: &mut Ch) {
    let x = c.of(&[1, 0]);
    w.i32(x);
}
const STRS: [Option<&str>; 4] = [Some("Text"), None, Some(""), Some("\u{fc}\u{4e2d}")];
fn string(w: &mut W, c: &mut Ch) {
    let s = c.of(&STRS);
    w.str(s);
}

pub const UPROPS: &[(&str, usize)] = &[
    ("EnumProperty", 2),
    ("ArrayProperty", 1),
    ("SetProperty", 1),
    ("ObjectProperty", 1),
    ("SoftObjectProperty", 1),
    ("LazyObjectProperty", 1),
    ("ClassProperty", 2),
    ("SoftClassProperty", 2),
    ("DelegateProperty", 1),
    ("MulticastDelegateProperty", 1),
    ("MulticastInlineDelegateProperty", 1),
    ("InterfaceProperty", 1),
    ("MapProperty", 2),
    ("BoolProperty", 0),
    ("ByteProperty", 1),
    ("StructProperty", 1),
    ("DoubleProperty", 0),
    ("FloatProperty", 0),
    ("IntProperty", 0),
    ("Int8Property", 0),
    ("Int16Property", 0),
    ("Int64Property", 0),
    ("UInt8Property", 0),
    ("UInt16Property", 0),
    ("UInt64Property", 0),
    ("NameProperty", 0),
    ("StrProperty", 0),
    ("TextProperty", 0),
];
pub const FPROPS: &[&str] = &[
    "IntProperty",
    "EnumProperty",
    "ArrayProperty",
    "SetProperty",
    "ObjectProperty",
    "SoftObjectProperty",
    "ClassProperty",
    "SoftClassProperty",
    "DelegateProperty",
    "MulticastDelegateProperty",
    "MulticastInlineDelegateProperty",
    "InterfaceProperty",
    "MapProperty",
    "BoolProperty",
    "ByteProperty",
    "StructProperty",
    "NumericProperty",
    "TextProperty",
];
/// An FProperty: type name first, then the common part, then the type's own.
pub fn fprop(w: &mut W, c: &mut Ch, ty: &str, name: &str, depth: usize) {
    fprop_head(w, c, ty, name);
    match ty {
        "EnumProperty" => {
            idx(w, c);
            fprop(w, c, "ByteProperty", "UnderlyingType", depth + 1);
        }
        "ArrayProperty" | "SetProperty" => {
            let i = if depth == 0 { c.of(&["StructProperty", "IntProperty", "ArrayProperty"]) } else { "IntProperty" };
            fprop(w, c, i, "Inner", depth + 1);
        }
        "MapProperty" => {
            let (k, v) = if depth == 0 { c.of(&[("NameProperty", "ObjectProperty"), ("StructProperty", "StructProperty"), ("IntProperty", "MapProperty")]) } else { ("IntProperty", "StrProperty") };
            fprop(w, c, k, "Key", depth + 1);
            fprop(w, c, v, "Value", depth + 1);
        }
        "ObjectProperty" | "SoftObjectProperty" | "DelegateProperty" | "MulticastDelegateProperty" | "MulticastInlineDelegateProperty" | "InterfaceProperty" | "ByteProperty" | "StructProperty" => idx(w, c),
        "ClassProperty" | "SoftClassProperty" => {
            idx(w, c);
            idx(w, c);
        }
        "BoolProperty" => {
            for k in 0..4 {
                let x = c.of(&[k + 1u8, 0, 255]);
                w.u8(x);
            }
            for _ in 0..2 {
                let x = c.of(&[1u8, 0]);
                w.u8(x);
            }
        }
        _ => {}
    }
}
fn fprop_head(w: &mut W, c: &mut Ch, ty: &str, name: &str) {
    w.rname(ty, 0);
    w.t(ty);
    let n = c.of(&[0, 4]);
    w.name(name, n);
    let x = c.of(&OBJ_FLAGS);
    w.u32(x);
    let x = c.of(&[1, 0, 2]);
    w.i32(x);
    let x = c.of(&[8, 0, -1]);
    w.i32(x);
    let x = c.of(&PROP_FLAGS);
    w.u64(x);
    let x = c.of(&[3u16, 0, u16::MAX]);
    w.u16(x);
    let (s, k) = c.of(&[("OnRep_X", 0), ("None", 0), ("OnRep_X", 2)]);
    w.name(s, k);
    let x = c.of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]);
    w.u8(x);
}
fn generic(o: &mut Vec<Tok>, ty: &str, p: &FGenericProperty) {
    o.push(Tok::T(ty.into()));
    o.push(fname(&p.name));
    o.push(Tok::I(p.flags.bits() as i64));
    o.push(Tok::I(i32::from(p.array_dim) as i64));
    o.push(Tok::I(p.element_size as i64));
    o.push(Tok::I(p.property_flags.bits() as i64));
    o.push(Tok::I(p.rep_index as i64));
    o.push(fname(&p.rep_notify_func));
    o.push(Tok::I(u8::from(p.blueprint_replication_condition) as i64));
}
fn pi(o: &mut Vec<Tok>, i: &PackageIndex) {
    o.push(Tok::I(i.index as i64))
}
pub fn walk_fprop(o: &mut Vec<Tok>, p: &FProperty) {
    match p {
        FProperty::FGenericProperty(p) => generic(o, &p.serialized_type.as_ref().map(|t| t.get_owned_content()).unwrap_or_default(), p),
        FProperty::FEnumProperty(p) => {
            generic(o, "EnumProperty", &p.generic_property);
            pi(o, &p.enum_value);
            walk_fprop(o, &p.underlying_prop);
        }
        FProperty::FArrayProperty(p) => {
            generic(o, "ArrayProperty", &p.generic_property);
            walk_fprop(o, &p.inner);
        }
        FProperty::FSetProperty(p) => {
            generic(o, "SetProperty", &p.generic_property);
            walk_fprop(o, &p.element_prop);
        }
        FProperty::FMapProperty(p) => {
            generic(o, "MapProperty", &p.generic_property);
            walk_fprop(o, &p.key_prop);
            walk_fprop(o, &p.value_prop);
        }
        FProperty::FObjectProperty(p) => {
            generic(o, "ObjectProperty", &p.generic_property);
            pi(o, &p.property_class);
        }
        FProperty::FSoftObjectProperty(p) => {
            generic(o, "SoftObjectProperty", &p.generic_property);
            pi(o, &p.property_class);
        }
        FProperty::FClassProperty(p) => {
            generic(o, "ClassProperty", &p.generic_property);
            pi(o, &p.property_class);
            pi(o, &p.meta_class);
        }
        FProperty::FSoftClassProperty(p) => {
            generic(o, "SoftClassProperty", &p.generic_property);
            pi(o, &p.property_class);
            pi(o, &p.meta_class);
        }
        FProperty::FDelegateProperty(p) => {
            generic(o, "DelegateProperty", &p.generic_property);
            pi(o, &p.signature_function);
        }
        FProperty::FMulticastDelegateProperty(p) => {
            generic(o, "MulticastDelegateProperty", &p.generic_property);
            pi(o, &p.signature_function);
        }
        FProperty::FMulticastInlineDelegateProperty(p) => {
            generic(o, "MulticastInlineDelegateProperty", &p.generic_property);
            pi(o, &p.signature_function);
        }
        FProperty::FInterfaceProperty(p) => {
            generic(o, "InterfaceProperty", &p.generic_property);
            pi(o, &p.interface_class);
        }
        FProperty::FBoolProperty(p) => {
            generic(o, "BoolProperty", &p.generic_property);
            for x in [p.field_size, p.byte_offset, p.byte_mask, p.field_mask, p.native_bool as u8, p.value as u8] {
                o.push(Tok::I(x as i64));
            }
        }
        FProperty::FByteProperty(p) => {
            generic(o, "ByteProperty", &p.generic_property);
            pi(o, &p.enum_value);
        }
        FProperty::FStructProperty(p) => {
            generic(o, "StructProperty", &p.generic_property);
            pi(o, &p.struct_value);
        }
        FProperty::FNumericProperty(p) => generic(o, "NumericProperty", &p.generic_property),
    }
}
fn ugeneric(o: &mut Vec<Tok>, ty: &str, p: &UGenericProperty, idx: &[&PackageIndex]) {
    o.push(Tok::T(ty.into()));
    if let Some(n) = &p.u_field.next {
        pi(o, n);
    }
    o.push(Tok::I(i32::from(p.array_dim) as i64));
    o.push(Tok::I(p.property_flags.bits() as i64));
    o.push(fname(&p.rep_notify_func));
    if let Some(x) = p.blueprint_replication_condition {
        o.push(Tok::I(u8::from(x) as i64));
    }
    for i in idx {
        pi(o, i);
    }
}
fn walk_uprop(o: &mut Vec<Tok>, p: &UProperty) {
    use UProperty::*;
    match p {
        UGenericProperty(p) => ugeneric(o, "", p, &[]),
        UEnumProperty(p) => ugeneric(o, "EnumProperty", &p.generic_property, &[&p.value, &p.underlying_prop]),
        UArrayProperty(p) => ugeneric(o, "ArrayProperty", &p.generic_property, &[&p.inner]),
        USetProperty(p) => ugeneric(o, "SetProperty", &p.generic_property, &[&p.element_prop]),
        UObjectProperty(p) => ugeneric(o, "ObjectProperty", &p.generic_property, &[&p.property_class]),
        USoftObjectProperty(p) => ugeneric(o, "SoftObjectProperty", &p.generic_property, &[&p.property_class]),
        ULazyObjectProperty(p) => ugeneric(o, "LazyObjectProperty", &p.generic_property, &[&p.property_class]),
        UClassProperty(p) => ugeneric(o, "ClassProperty", &p.generic_property, &[&p.property_class, &p.meta_class]),
        USoftClassProperty(p) => ugeneric(o, "SoftClassProperty", &p.generic_property, &[&p.property_class, &p.meta_class]),
        UDelegateProperty(p) => ugeneric(o, "DelegateProperty", &p.generic_property, &[&p.signature_function]),
        UMulticastDelegateProperty(p) => ugeneric(o, "MulticastDelegateProperty", &p.generic_property, &[&p.signature_function]),
        UMulticastInlineDelegateProperty(p) => ugeneric(o, "MulticastInlineDelegateProperty", &p.generic_property, &[&p.signature_function]),
        UInterfaceProperty(p) => ugeneric(o, "InterfaceProperty", &p.generic_property, &[&p.interface_class]),
        UMapProperty(p) => ugeneric(o, "MapProperty", &p.generic_property, &[&p.key_prop, &p.value_prop]),
        UBoolProperty(p) => {
            ugeneric(o, "BoolProperty", &p.generic_property, &[]);
            o.push(Tok::I(p.element_size as i64));
            o.push(Tok::I(p.native_bool as i64));
        }
        UByteProperty(p) => ugeneric(o, "ByteProperty", &p.generic_property, &[&p.enum_value]),
        UStructProperty(p) => ugeneric(o, "StructProperty", &p.generic_property, &[&p.struct_value]),
        UDoubleProperty(p) => ugeneric(o, "DoubleProperty", &p.generic_property, &[]),
        UFloatProperty(p) => ugeneric(o, "FloatProperty", &p.generic_property, &[]),
        UIntProperty(p) => ugeneric(o, "IntProperty", &p.generic_property, &[]),
        UInt8Property(p) => ugeneric(o, "Int8Property", &p.generic_property, &[]),
        UInt16Property(p) => ugeneric(o, "Int16Property", &p.generic_property, &[]),
        UInt64Property(p) => ugeneric(o, "Int64Property", &p.generic_property, &[]),
        UUInt8Property(p) => ugeneric(o, "UInt8Property", &p.generic_property, &[]),
        UUInt16Property(p) => ugeneric(o, "UInt16Property", &p.generic_property, &[]),
        UUInt64Property(p) => ugeneric(o, "UInt64Property", &p.generic_property, &[]),
        UNameProperty(p) => ugeneric(o, "NameProperty", &p.generic_property, &[]),
        UStrProperty(p) => ugeneric(o, "StrProperty", &p.generic_property, &[]),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Normal,
    Level,
    World,
    StringTable,
    /// rows of this struct type
    DataTable(&'static str),
    Enum,
    Function,
    UserDefinedStruct,
    Class,
    Property(&'static str, usize),
}
impl Kind {
    pub fn all() -> Vec<Kind> {
        let mut o = vec![Kind::Normal, Kind::Level, Kind::World, Kind::StringTable, Kind::Enum, Kind::Function, Kind::UserDefinedStruct, Kind::Class];
        for s in ["MyRow", "Vector", "Guid", "Color", "RichCurveKey"] {
            o.push(Kind::DataTable(s));
        }
        for (s, n) in UPROPS {
            o.push(Kind::Property(s, *n));
        }
        o
    }
    /// class names that select this kind
    pub fn classes(&self) -> Vec<&'static str> {
        match self {
            Kind::Normal => vec!["SomeClass", "LevelSequence", "DataTableX"],
            Kind::Level => vec!["Level"],
            Kind::World => vec!["World"],
            Kind::StringTable => vec!["StringTable", "MyStringTable"],
            Kind::DataTable(_) => vec!["DataTable", "CompositeDataTable"],
            Kind::Enum => vec!["UserDefinedEnum", "Enum"],
            Kind::Function => vec!["Function"],
            Kind::UserDefinedStruct => vec!["UserDefinedStruct"],
            Kind::Class => vec!["BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass"],
            Kind::Property(s, _) => vec![s],
        }
    }
    pub fn variant(&self) -> &'static str {
        match self {
            Kind::Normal => "Normal",
            Kind::Level => "Level",
            Kind::World => "World",
            Kind::StringTable => "StringTable",
            Kind::DataTable(_) => "DataTable",
            Kind::Enum => "Enum",
            Kind::Function => "Function",
            Kind::UserDefinedStruct => "UserDefinedStruct",
            Kind::Class => "Class",
            Kind::Property(..) => "Property",
        }
    }
}
/// Legal variations of the file the object model has no place for: they only have to survive unchanged.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quirk {
    No,
    /// the object has a guid
    Guid(u8),
    /// string table entries of length zero
    NullStrings,
}
fn object_guid(w: &mut W, q: Quirk) {
    if let Quirk::Guid(x) = q {
        w.ri32(1);
        for i in 0..16 {
            w.ru8(if x == 2 { i + 1 } else if i == 0 { x } else { 0 });
        }
    } else {
        w.ri32(0);
    }
}

/// The struct part shared by functions, classes and structs. `code` emits the bytecode: (in memory size).
pub fn struct_part(w: &mut W, c: &mut Ch, q: Quirk, code: &mut dyn FnMut(&mut W, &mut Ch) -> i32) {
    struct_part_with(w, c, q, code, None)
}
fn struct_part_with(w: &mut W, c: &mut Ch, q: Quirk, code: &mut dyn FnMut(&mut W, &mut Ch) -> i32, fields: Option<&mut dyn FnMut(&mut W)>) {
    object_guid(w, q);
    if !w.v.has(CV_UFIELD_NEXT) {
        idx(w, c); // next field
    }
    idx(w, c); // super
    if w.v.has(CV_UFIELD_NEXT) {
        idxs(w, c);
    } else {
        // a single pointer to the first child
        let x = c.of(&[5, 0, -3]);
        w.ri32(x);
        w.toks.push(Tok::I(i64::from(x != 0)));
        if x != 0 {
            w.toks.push(Tok::I(x as i64));
        }
    }
    if let Some(f) = fields {
        f(w);
    } else if w.v.has(CV_FPROPS) {
        let n = c.pick(FPROPS.len() + 2);
        match n {
            0 => {
                w.i32(2);
                fprop(w, c, "MapProperty", "MapProp", 0);
                fprop(w, c, "IntProperty", "IntProp", 0);
            }
            1 => w.i32(0),
            n => {
                w.i32(1);
                fprop(w, c, FPROPS[n - 2], "FieldProp", 0);
            }
        }
    }
    let at = w.b.len();
    w.ri32(0);
    w.ri32(0);
    let start = w.b.len();
    let mem = code(w, c);
    let len = (w.b.len() - start) as i32;
    w.set_i32(at, mem);
    w.set_i32(at + 4, len);
}
/// A blueprint class without code whose only field is a map with the given key and value types.
pub fn class_with_map(w: &mut W, c: &mut Ch, name: &str, k: (&Ty, i32), v: (&Ty, i32)) {
    let mut none = |_: &mut W, _: &mut Ch| 0;
    let field = |w: &mut W, (t, i): (&Ty, i32), n: &str| {
        let mut dc = Ch::new(&[]);
        match t {
            S(_) => {
                fprop(w, &mut dc, "StructProperty", n, 1);
                // the struct it refers to is the last field
                let at = w.b.len() - 4;
                w.set_i32(at, i);
                *w.toks.last_mut().unwrap() = Tok::I(i as i64);
            }
            P(p) => fprop(w, &mut dc, p, n, 1),
            _ => unreachable!(),
        }
    };
    let mut fields = |w: &mut W| {
        w.i32(1);
        let mut dc = Ch::new(&[]);
        fprop_head(w, &mut dc, "MapProperty", name);
        field(w, k, "Key");
        field(w, v, "Value");
    };
    w.t("Class");
    list_as(w, c, &[]);
    struct_part_with(w, c, Quirk::No, &mut |w, c| {
        none(w, c);
        w.toks.push(Tok::G(vec![]));
        w.toks.push(Tok::I(0));
        0
    }, Some(&mut fields));
    class_tail(w, c);
}
fn raw_code(w: &mut W, c: &mut Ch) -> i32 {
    // not parsed without a known engine version: kept as bytes
    let b = c.of(&[vec![0x0bu8, 0x53], vec![], vec![0xff, 0xfe, 0, 1, 2, 3]]);
    w.raw(&b);
    let m = c.of(&[77, 0]);
    w.toks.push(Tok::I(m as i64));
    m
}
/// Serialized export of a kind. `code` None: opaque bytecode.
pub fn body(w: &mut W, c: &mut Ch, kind: &Kind, q: Quirk, code: Option<&mut dyn FnMut(&mut W, &mut Ch) -> i32>) {
    let mut opaque = |w: &mut W, c: &mut Ch| raw_code(w, c);
    let code: &mut dyn FnMut(&mut W, &mut Ch) -> i32 = match code {
        Some(x) => x,
        None => &mut opaque,
    };
    w.t(kind.variant());
    match kind {
        Kind::DataTable(s) => {
            w.t("{");
            let mut dc = Ch::new(&[]);
            if *s != "MyRow" || c.pick(2) == 0 {
                // import 4 is the row struct, export 2 (named like a native struct) a decoy
                row_struct(w, if *s == "MyRow" { c.of(&[-4, 2]) } else { -4 });
            }
            tagged(w, &mut dc, "After", &P("IntProperty"));
            w.t("}");
            w.rname("None", 0);
        }
        _ => list_as(w, c, &[("ListInt", P("IntProperty")), ("ListName", P("NameProperty"))]),
    }
    match kind {
        Kind::Normal => object_guid(w, q),
        Kind::Level => {
            object_guid(w, q);
            idxs(w, c);
            for _ in 0..4 {
                string(w, c);
            }
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for _ in 0..n {
                string(w, c);
            }
            let x = c.of(&[7777, 0, -1]);
            w.i32(x);
            let x = c.of(&[1, 0, 7]);
            w.i32(x);
            idx(w, c);
            idxs(w, c);
            idx(w, c);
            idx(w, c);
            idx(w, c);
        }
        Kind::World => {
            object_guid(w, q);
            idx(w, c);
            idxs(w, c);
            idxs(w, c);
        }
        Kind::StringTable => {
            object_guid(w, q);
            string(w, c);
            let n = c.of(&[2, 0, 1, 3]);
            w.i32(n);
            for i in 0..n {
                let k = c.of(&["Key", "\u{e9}", "K\"\n"]);
                let k = format!("{k}{i}");
                let gone = q == Quirk::NullStrings;
                w.str(if gone && i == 1 { None } else { Some(&k) });
                let s = if gone && i == 0 { None } else { c.of(&[Some("Value"), Some(""), Some("\u{1f600}")]) };
                w.str(s);
            }
        }
        Kind::DataTable(s) => {
            object_guid(w, q);
            let n = c.of(&[2, 0, 1]);
            w.i32(n);
            for i in 0..n {
                let (k, m) = c.of(&[("Row", 0), ("Row", 9), ("None", 0)]);
                w.name(k, m + i);
                struct_body(w, c, s);
            }
        }
        Kind::Enum => {
            object_guid(w, q);
            let n = c.of(&[2, 0, 1, 3]);
            w.i32(n);
            for i in 0..n {
                let (s, k) = c.of(&[("EThing::A", 0), ("EThing::B", 3), ("None", 0)]);
                w.name(s, k);
                if w.v.obj < V_TIGHT_ENUMS {
                    w.toks.push(Tok::I(i as i64));
                } else if !w.v.has(CV_ENUM_PROPS) {
                    let x = c.of(&[i as u8, 255, 7]);
                    w.u8(x);
                } else {
                    let x = c.of(&[i as i64, -1, i64::MAX]);
                    w.i64(x);
                }
            }
            if w.v.obj < V_ENUM_CLASS {
                let x = c.of(&[1, 0]);
                w.i32(x);
            } else {
                let x = c.of(&[1u8, 0, 2]);
                w.u8(x);
            }
        }
        Kind::Function => {
            struct_part(w, c, q, code);
            let x = c.of(&[0x0400_0400u32, 0, u32::MAX]);
            w.u32(x);
        }
        Kind::UserDefinedStruct => {
            struct_part(w, c, q, code);
            let x = c.of(&[0x10u32, 0, 0x00ff_fe7e]);
            w.u32(x);
            list(w, c);
        }
        Kind::Class => {
            struct_part(w, c, q, code);
            class_tail(w, c);
        }
        Kind::Property(ty, n) => {
            object_guid(w, q);
            w.t(if *ty == "TextProperty" { "" } else { ty });
            if !w.v.has(CV_UFIELD_NEXT) {
                idx(w, c);
            }
            let x = c.of(&[1, 0, 2]);
            w.i32(x);
            let x = c.of(&PROP_FLAGS);
            w.u64(x);
            let (s, k) = c.of(&[("OnRep_X", 0), ("None", 0), ("OnRep_X", 2)]);
            w.name(s, k);
            if w.v.has(CV_REP_COND) {
                let x = c.of(&[0u8, 1, 8, 13, 15, 16]);
                w.u8(x);
            }
            for _ in 0..*n {
                idx(w, c);
            }
            if *ty == "BoolProperty" {
                let x = c.of(&[1u8, 0, 8]);
                w.u8(x);
                let x = c.of(&[1u8, 0]);
                w.u8(x);
            }
        }
    }
}
fn class_tail(w: &mut W, c: &mut Ch) {
            let n = c.of(&[1, 0, 2]);
            w.i32(n);
            for i in 0..n {
                let (s, k) = c.of(&[("Func", 0), ("Func", 3), ("ReceiveTick", 0)]);
                w.name(s, k + 10 * i);
                let x = c.of(&[2 + i, -1, 0]);
                w.i32(x);
            }
            let x = c.of(&[0x0000_0210u32, 0, u32::MAX]);
            w.b.extend(x.to_le_bytes());
            w.toks.push(Tok::I(if w.v.obj < V_NOTPLACEABLE { x ^ 0x200 } else { x } as i64));
            idx(w, c); // within
            let (s, k) = c.of(&[("Engine", 0), ("Game", 1)]);
            w.name(s, k);
            // interfaces
            let n = c.of(&[1, 0, 2]);
            let mut rows = vec![];
            for i in 0..n {
                rows.push((c.of(&[-1 - i, 3]), c.of(&[8, 0, -1]), c.of(&[1, 0])));
            }
            let gen = c.of(&IDX);
            if w.v.obj >= V_IFACES_AFTER {
                w.ri32(gen);
            }
            w.ri32(n);
            for (a, b, d) in &rows {
                w.ri32(*a);
                w.ri32(*b);
                w.ri32(*d);
            }
            if w.v.obj < V_IFACES_AFTER {
                w.ri32(gen);
            }
            w.toks.push(Tok::I(gen as i64));
            w.toks.push(Tok::I(n as i64));
            for (a, b, d) in rows {
                w.toks.extend([Tok::I(a as i64), Tok::I(b as i64), Tok::I(d as i64)]);
            }
            flag(w, c);
            w.rname("None", 0);
            if w.v.obj >= V_COOKED_UCLASS {
                flag(w, c);
            }
            idx(w, c);
}
fn row_struct(w: &mut W, i: i32) {
    // ObjectProperty RowStruct
    w.rname("RowStruct", 0);
    w.rname("ObjectProperty", 0);
    w.ri32(4);
    w.ri32(0);
    w.t("ObjectProperty");
    w.toks.push(Tok::N("RowStruct".into(), 0));
    w.toks.push(Tok::I(0));
    w.toks.push(Tok::S(None));
    if w.v.obj >= V_PROP_GUID {
        w.ru8(0);
    }
    w.i32(i);
}
fn walk_struct(o: &mut Vec<Tok>, s: &StructExport<PackageIndex>, v: &Ver, code: &mut dyn FnMut(&mut Vec<Tok>, &StructExport<PackageIndex>)) {
    if let Some(n) = &s.field.next {
        pi(o, n);
    }
    pi(o, &s.super_struct);
    list_pi(o, &s.children);
    if v.has(CV_FPROPS) {
        o.push(Tok::I(s.loaded_properties.len() as i64));
        for p in &s.loaded_properties {
            walk_fprop(o, p);
        }
    }
    code(o, s);
}
pub fn walk_raw_code(o: &mut Vec<Tok>, s: &StructExport<PackageIndex>) {
    o.push(Tok::G(s.script_bytecode_raw.clone().unwrap_or_else(|| b"parsed?".to_vec())));
    o.push(Tok::I(s.script_bytecode_size as i64));
}
fn list_pi(o: &mut Vec<Tok>, l: &[PackageIndex]) {
    o.push(Tok::I(l.len() as i64));
    for x in l {
        pi(o, x);
    }
}
/// Everything the library holds of an export's own data.
pub fn walk_export(o: &mut Vec<Tok>, e: &Export<PackageIndex>, v: &Ver, code: &mut dyn FnMut(&mut Vec<Tok>, &StructExport<PackageIndex>)) {
    o.push(Tok::T(variant(e).into()));
    if let Some(n) = e.get_normal_export() {
        o.push(Tok::T("{".into()));
        for p in &n.properties {
            walk(p, true, v, o);
        }
        o.push(Tok::T("}".into()));
    }
    let st = |o: &mut Vec<Tok>, s: &Option<String>| o.push(Tok::S(s.clone()));
    match e {
        Export::LevelExport(e) => {
            list_pi(o, &e.actors);
            for s in [&e.url.protocol, &e.url.host, &e.url.map, &e.url.portal] {
                st(o, s);
            }
            o.push(Tok::I(e.url.options.len() as i64));
            for s in &e.url.options {
                st(o, s);
            }
            o.push(Tok::I(e.url.port as i64));
            o.push(Tok::I(e.url.valid as i64));
            pi(o, &e.model);
            list_pi(o, &e.model_components);
            pi(o, &e.level_script);
            pi(o, &e.nav_list_start);
            pi(o, &e.nav_list_end);
        }
        Export::WorldExport(e) => {
            pi(o, &e.persistent_level);
            list_pi(o, &e.extra_objects);
            list_pi(o, &e.streaming_levels);
        }
        Export::StringTableExport(e) => {
            st(o, &e.namespace);
            o.push(Tok::I(e.table.len() as i64));
            for (_, k, x) in &e.table {
                st(o, &Some(k.clone()));
                st(o, &Some(x.clone()));
            }
        }
        Export::DataTableExport(e) => {
            o.push(Tok::I(e.table.data.len() as i64));
            for r in &e.table.data {
                o.push(fname(&r.name));
                walk_struct_value(r, v, o);
            }
        }
        Export::EnumExport(e) => {
            o.push(Tok::I(e.value.names.len() as i64));
            for (n, x) in &e.value.names {
                o.push(fname(n));
                o.push(Tok::I(*x));
            }
            o.push(Tok::I(u8::from(e.value.cpp_form) as i64));
        }
        Export::FunctionExport(e) => {
            walk_struct(o, &e.struct_export, v, code);
            o.push(Tok::I(e.function_flags.bits() as i64));
        }
        Export::UserDefinedStructExport(e) => {
            walk_struct(o, &e.struct_export, v, code);
            o.push(Tok::I(e.flags.bits() as i64));
            walk_list(&e.default_struct_instance, v, o);
        }
        Export::ClassExport(e) => {
            walk_struct(o, &e.struct_export, v, code);
            o.push(Tok::I(e.func_map.len() as i64));
            for (_, k, x) in &e.func_map {
                o.push(fname(k));
                pi(o, x);
            }
            o.push(Tok::I(e.class_flags.bits() as i64));
            pi(o, &e.class_within);
            o.push(fname(&e.class_config_name));
            pi(o, &e.class_generated_by);
            o.push(Tok::I(e.interfaces.len() as i64));
            for x in &e.interfaces {
                pi(o, &x.class);
                o.push(Tok::I(x.pointer_offset as i64));
                o.push(Tok::I(x.implemented_by_k2 as i64));
            }
            o.push(Tok::I(e.deprecated_force_script_order as i64));
            if let Some(x) = e.cooked {
                o.push(Tok::I(x as i64));
            }
            pi(o, &e.class_default_object);
        }
        Export::PropertyExport(e) => walk_uprop(o, &e.property),
        _ => {}
    }
}
