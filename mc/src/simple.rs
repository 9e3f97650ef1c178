//! Plain tagged properties with given values (file versions 503 and later), and packages made of them.
use crate::pkg::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(Option<String>),
    Int(i32),
    Bool(bool),
    Obj(i32),
    Name(String, i32),
    /// enum type and value
    Byte(String, String),
    Enum(String, String),
    Objs(Vec<i32>),
    Ints(Vec<i32>),
    /// struct type and fields
    Struct(String, Vec<Prop>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub name: (String, i32),
    pub index: i32,
    pub guid: Option<[u8; 16]>,
    pub val: Val,
}
pub fn prop(name: &str, val: Val) -> Prop {
    Prop { name: (name.into(), 0), index: 0, guid: None, val }
}

pub fn put(w: &mut W, p: &Prop) {
    use Val::*;
    w.rname(&p.name.0, p.name.1);
    w.rname(
        match &p.val {
            Str(_) => "StrProperty",
            Int(_) => "IntProperty",
            Bool(_) => "BoolProperty",
            Obj(_) => "ObjectProperty",
            Name(..) => "NameProperty",
            Byte(..) => "ByteProperty",
            Enum(..) => "EnumProperty",
            Objs(_) | Ints(_) => "ArrayProperty",
            Struct(..) => "StructProperty",
        },
        0,
    );
    let at = w.b.len();
    w.ri32(0);
    w.ri32(p.index);
    match &p.val {
        Bool(b) => w.ru8(*b as u8),
        Byte(t, _) | Enum(t, _) => w.rname(t, 0),
        Objs(_) => w.rname("ObjectProperty", 0),
        Ints(_) => w.rname("IntProperty", 0),
        Struct(t, _) => {
            w.rname(t, 0);
            for _ in 0..4 {
                w.ri32(0);
            }
        }
        _ => {}
    }
    w.ru8(p.guid.is_some() as u8);
    if let Some(g) = p.guid {
        w.b.extend(g);
    }
    let start = w.b.len();
    match &p.val {
        Str(s) => put_fstring(&mut w.b, s.as_deref()),
        Int(i) | Obj(i) => w.ri32(*i),
        Bool(_) => {}
        Name(s, n) => w.rname(s, *n),
        Byte(_, v) | Enum(_, v) => w.rname(v, 0),
        Objs(l) | Ints(l) => {
            w.ri32(l.len() as i32);
            for x in l {
                w.ri32(*x);
            }
        }
        Struct(_, l) => put_list(w, l),
    }
    let n = (w.b.len() - start) as i32;
    w.set_i32(at, n);
}
pub fn put_list(w: &mut W, l: &[Prop]) {
    for p in l {
        put(w, p);
    }
    w.rname("None", 0);
}
/// Body of an ordinary object.
pub fn object(names: &NamesRef, v: &Ver, l: &[Prop]) -> Vec<u8> {
    let mut w = W::new(names, v);
    put_list(&mut w, l);
    w.ri32(0);
    w.b
}
/// Body of a data table.
pub fn data_table(names: &NamesRef, v: &Ver, own: &[Prop], rows: &[((String, i32), Vec<Prop>)]) -> Vec<u8> {
    let mut w = W::new(names, v);
    put_list(&mut w, own);
    w.ri32(0);
    w.ri32(rows.len() as i32);
    for (n, l) in rows {
        w.rname(&n.0, n.1);
        put_list(&mut w, l);
    }
    w.b
}
/// A cooked UE 4.23 package: no stored versions, event driven loader.
pub fn ue4_23() -> Ver {
    Ver { obj: 517, ue5: 0, cv: vec![], unversioned: true, legacy: -7, engine: 25 }
}
