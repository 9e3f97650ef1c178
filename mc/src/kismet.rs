//! Reference encoding of kismet bytecode: bytes on disk, size in memory, and the walker over the parsed tree.
use crate::pkg::*;
use crate::uasset::fname;
use unreal_asset::kismet::*;

/// opcode and its fields, in disk order:
/// p property pointer, e expression, u u32, h u16, b bool, o object, n name, i i32, f float, d double, s/S string,
/// B byte, q 64 bit, v vector, t transform, x text, X call parameters, C counted list, M counted pairs, E list,
/// a assignee of a set array, c cast kind, w switch, y instrumentation event
pub const OPS: &[(u8, &str)] = &[
    (0x17, ""),
    (0x00, "p"),
    (0x01, "p"),
    (0x02, "p"),
    (0x04, "e"),
    (0x06, "u"),
    (0x07, "ue"),
    (0x09, "hbe"),
    (0x0b, ""),
    (0x0f, "pee"),
    (0x12, "eupe"),
    (0x13, "oe"),
    (0x14, "ee"),
    (0x15, ""),
    (0x16, ""),
    (0x18, "ue"),
    (0x19, "eupe"),
    (0x1a, "eupe"),
    (0x1b, "nX"),
    (0x1c, "oX"),
    (0x1d, "i"),
    (0x1e, "f"),
    (0x1f, "s"),
    (0x20, "o"),
    (0x21, "n"),
    (0x22, "v"),
    (0x23, "v"),
    (0x24, "B"),
    (0x25, ""),
    (0x26, ""),
    (0x27, ""),
    (0x28, ""),
    (0x29, "x"),
    (0x2a, ""),
    (0x2b, "t"),
    (0x2c, "B"),
    (0x2d, ""),
    (0x2e, "oe"),
    (0x2f, "oiE"),
    (0x30, ""),
    (0x31, "aE"),
    (0x32, ""),
    (0x33, "p"),
    (0x34, "S"),
    (0x35, "q"),
    (0x36, "q"),
    (0x37, "d"),
    (0x38, "ce"),
    (0x39, "eC"),
    (0x3a, ""),
    (0x3b, "eM"),
    (0x3c, ""),
    (0x3d, "pC"),
    (0x3e, ""),
    (0x3f, "ppM"),
    (0x40, ""),
    (0x42, "pe"),
    (0x43, "ee"),
    (0x44, "ee"),
    (0x45, "nX"),
    (0x46, "oX"),
    (0x48, "p"),
    (0x4a, ""),
    (0x4b, "n"),
    (0x4c, "u"),
    (0x4d, ""),
    (0x4e, "e"),
    (0x4f, "e"),
    (0x50, ""),
    (0x51, "e"),
    (0x52, "oe"),
    (0x53, ""),
    (0x54, "oe"),
    (0x55, "oe"),
    (0x5a, ""),
    (0x5b, "u"),
    (0x5c, "ee"),
    (0x5d, "e"),
    (0x5e, ""),
    (0x5f, "ee"),
    (0x60, "ee"),
    (0x61, "nee"),
    (0x62, "ee"),
    (0x63, "oeX"),
    (0x64, "pe"),
    (0x65, "pC"),
    (0x66, ""),
    (0x67, "e"),
    (0x68, "oX"),
    (0x69, "w"),
    (0x6a, "y"),
    (0x6b, "ee"),
    (0x6c, "p"),
    (0x6d, "e"),
];
fn end_of(op: u8) -> u8 {
    match op {
        0x2f => 0x30,
        0x31 => 0x32,
        0x39 => 0x3a,
        0x3b => 0x3c,
        0x3d => 0x3e,
        0x3f => 0x40,
        0x65 => 0x66,
        _ => 0x16,
    }
}
const IDX: [i32; 4] = [-2, 0, 1, i32::MIN];
const U32: [u32; 3] = [5, 0, u32::MAX];
const ANSI: [&str; 3] = ["Text", "", "a\nb'\"\u{7f}"];
const WIDE: [&str; 4] = ["T\u{e9}xt", "", "\u{4e2d}", "\u{1f600}x"];

fn object(w: &mut W, c: &mut Ch) -> i32 {
    let x = c.of(&IDX);
    w.i32(x);
    8
}
fn name(w: &mut W, c: &mut Ch) -> i32 {
    let (s, n) = c.of(&[("FuncName", 0), ("FuncName", 7), ("None", 0)]);
    w.name(s, n);
    12
}
fn pointer(w: &mut W, c: &mut Ch) -> i32 {
    if w.v.obj >= V_PKG_OWNER {
        let l = c.of(&[vec![("Var", 0)], vec![], vec![("Var", 3), ("Struct", 0), ("None", 0)]]);
        w.i32(l.len() as i32);
        for (s, n) in l {
            w.name(s, n);
        }
    }
    let x = c.of(&IDX);
    w.i32(x);
    8
}
fn list(w: &mut W, c: &mut Ch, depth: usize, end: u8, counted: usize) -> i32 {
    let n = if counted == 2 { c.of(&[2, 0, 4]) } else { c.of(&[1, 0, 2, 3]) };
    let mut m = 0;
    if counted > 0 {
        w.ri32((n / counted) as i32);
        m += 4;
    }
    w.toks.push(Tok::I(n as i64));
    for _ in 0..n {
        m += expr(w, c, depth, None, end);
    }
    w.ru8(end);
    m + 1
}
/// Writes one expression; the in memory size. `op` None: any opcode (the default is self) while depth lasts.
pub fn expr(w: &mut W, c: &mut Ch, depth: usize, op: Option<usize>, forbid: u8) -> i32 {
    let mut k = match op {
        Some(k) => k,
        None if depth == 0 => 0,
        None => c.pick(OPS.len()),
    };
    if OPS[k].0 == forbid {
        k = 0;
    }
    let depth = depth.saturating_sub(op.is_none() as usize);
    let (code, fields) = OPS[k];
    w.u8(code);
    let mut m = 1;
    for f in fields.chars() {
        m += match f {
            'p' => pointer(w, c),
            'e' => expr(w, c, depth, None, 0),
            'u' => {
                let x = c.of(&U32);
                w.u32(x);
                4
            }
            'h' => {
                let x = c.of(&[5u16, 0, u16::MAX]);
                w.u16(x);
                2
            }
            'b' => {
                let x = c.of(&[1u8, 0]);
                w.u8(x);
                1
            }
            'o' => object(w, c),
            'n' => name(w, c),
            'i' => {
                let x = c.of(&[7, 0, -1, i32::MIN]);
                w.i32(x);
                4
            }
            'f' => {
                let x = c.of(&[1.5f32, -0.0, f32::INFINITY, 1e-40]);
                w.f32(x);
                4
            }
            'd' => {
                let x = c.of(&[1.5f64, -0.0, 0.1, f64::NEG_INFINITY]);
                w.f64(x);
                8
            }
            's' => {
                let s = c.of(&ANSI);
                w.b.extend(s.as_bytes());
                w.b.push(0);
                w.toks.push(Tok::S(Some(s.into())));
                s.len() as i32 + 1
            }
            'S' => {
                let s = c.of(&WIDE);
                let u: Vec<u16> = s.encode_utf16().collect();
                for x in &u {
                    w.b.extend(x.to_le_bytes());
                }
                w.b.extend([0, 0]);
                w.toks.push(Tok::S(Some(s.into())));
                u.len() as i32 * 2 + 2
            }
            'B' => {
                let x = c.of(&[7u8, 0, 255]);
                w.u8(x);
                1
            }
            'q' => {
                let x = c.of(&[7i64, -1, i64::MIN]);
                w.i64(x);
                8
            }
            'v' | 't' => {
                let n = if f == 'v' { 3 } else { 10 };
                for i in 0..n {
                    let x = c.of(&[1.5 + i as f32, -0.0, f32::MAX]);
                    w.fp(x);
                }
                n * if w.v.lwc() { 8 } else { 4 }
            }
            'x' => text(w, c, depth),
            'X' => list(w, c, depth, 0x16, 0),
            'E' => list(w, c, depth, end_of(code), 0),
            'C' => list(w, c, depth, end_of(code), 1),
            'M' => list(w, c, depth, end_of(code), 2),
            'a' => {
                if w.v.obj >= V_SETARRAY {
                    expr(w, c, depth, None, 0)
                } else {
                    object(w, c)
                }
            }
            'c' => {
                let l: Vec<u8> = if w.v.lwc() { (0..=0x12).chain([0xff]).collect() } else { vec![0x46, 0x47, 0x49, 0xff] };
                let x = c.of(&l);
                w.u8(x);
                1
            }
            'w' => {
                let n = c.of(&[1u16, 0, 2]);
                w.u16(n);
                let x = c.of(&U32);
                w.u32(x);
                let mut m = 6 + expr(w, c, depth, None, 0);
                for _ in 0..n {
                    m += expr(w, c, depth, None, 0);
                    let x = c.of(&U32);
                    w.u32(x);
                    m += 4 + expr(w, c, depth, None, 0);
                }
                m + expr(w, c, depth, None, 0)
            }
            'y' => {
                let x = c.pick(17) as u8;
                w.u8(x);
                if x == 4 {
                    1 + name(w, c)
                } else {
                    1
                }
            }
            _ => unreachable!(),
        };
    }
    m
}
fn text(w: &mut W, c: &mut Ch, depth: usize) -> i32 {
    let k = c.of(&[1u8, 0, 2, 3, 4]);
    w.u8(k);
    let mut m = 1;
    if k == 4 {
        m += object(w, c);
    }
    for _ in 0..[0, 3, 1, 1, 2][k as usize] {
        m += expr(w, c, depth, None, 0);
    }
    m
}
fn wp(o: &mut Vec<Tok>, p: &KismetPropertyPointer) {
    if let Some(p) = &p.new {
        o.push(Tok::I(p.path.len() as i64));
        for n in &p.path {
            o.push(fname(n));
        }
        o.push(Tok::I(p.resolved_owner.index as i64));
    }
    if let Some(p) = &p.old {
        o.push(Tok::I(p.index as i64));
    }
}
fn wl(o: &mut Vec<Tok>, l: &[KismetExpression]) {
    o.push(Tok::I(l.len() as i64));
    for x in l {
        walk(o, x);
    }
}
fn wopt(o: &mut Vec<Tok>, e: &Option<KismetExpression>) {
    match e {
        Some(e) => walk(o, e),
        None => o.push(Tok::S(None)),
    }
}
macro_rules! field {
    ($o:ident, $x:expr, e) => {
        walk($o, &$x)
    };
    ($o:ident, $x:expr, p) => {
        wp($o, &$x)
    };
    ($o:ident, $x:expr, l) => {
        wl($o, &$x)
    };
    ($o:ident, $x:expr, o) => {
        $o.push(Tok::I($x.index as i64))
    };
    ($o:ident, $x:expr, n) => {
        $o.push(fname(&$x))
    };
    ($o:ident, $x:expr, i) => {
        $o.push(Tok::I($x as i64))
    };
    ($o:ident, $x:expr, s) => {
        $o.push(Tok::S(Some($x.clone())))
    };
    ($o:ident, $x:expr, v) => {
        for f in [$x.x.0, $x.y.0, $x.z.0] {
            float($o, f)
        }
    };
}
fn float(o: &mut Vec<Tok>, f: f64) {
    o.push(Tok::F(f.to_bits()))
}
macro_rules! walker {
    ($e:ident, $o:ident; $($name:ident ( $($f:ident $k:ident),* ))*) => {
        match $e {
            $(KismetExpression::$name(_x) => { $(field!($o, _x.$f, $k);)* })*
            _ => special($o, $e),
        }
    };
}
/// Everything the library holds of an expression, in disk order.
pub fn walk(o: &mut Vec<Tok>, e: &KismetExpression) {
    o.push(Tok::I(u8::from(e.get_token()) as i64));
    walker! { e, o;
        ExLocalVariable(variable p)
        ExInstanceVariable(variable p)
        ExDefaultVariable(variable p)
        ExLocalOutVariable(variable p)
        ExClassSparseDataVariable(variable p)
        ExPropertyConst(property p)
        ExReturn(return_expression e)
        ExJump(code_offset i)
        ExJumpIfNot(code_offset i, boolean_expression e)
        ExAssert(line_number i, debug_mode i, assert_expression e)
        ExLet(value p, variable e, expression e)
        ExClassContext(object_expression e, offset i, r_value_pointer p, context_expression e)
        ExContext(object_expression e, offset i, r_value_pointer p, context_expression e)
        ExContextFailSilent(object_expression e, offset i, r_value_pointer p, context_expression e)
        ExMetaCast(class_ptr o, target_expression e)
        ExDynamicCast(class_ptr o, target_expression e)
        ExObjToInterfaceCast(class_ptr o, target e)
        ExCrossInterfaceCast(class_ptr o, target e)
        ExInterfaceToObjCast(class_ptr o, target e)
        ExLetBool(variable_expression e, assignment_expression e)
        ExLetMulticastDelegate(variable_expression e, assignment_expression e)
        ExLetDelegate(variable_expression e, assignment_expression e)
        ExLetObj(variable_expression e, assignment_expression e)
        ExLetWeakObjPtr(variable_expression e, assignment_expression e)
        ExAddMulticastDelegate(delegate e, delegate_to_add e)
        ExRemoveMulticastDelegate(delegate e, delegate_to_add e)
        ExArrayGetByRef(array_variable e, array_index e)
        ExSkip(code_offset i, skip_expression e)
        ExVirtualFunction(virtual_function_name n, parameters l)
        ExLocalVirtualFunction(virtual_function_name n, parameters l)
        ExFinalFunction(stack_node o, parameters l)
        ExLocalFinalFunction(stack_node o, parameters l)
        ExCallMath(stack_node o, parameters l)
        ExCallMulticastDelegate(stack_node o, delegate e, parameters l)
        ExIntConst(value i)
        ExStringConst(value s)
        ExUnicodeStringConst(value s)
        ExObjectConst(value o)
        ExNameConst(value n)
        ExRotationConst(rotator v)
        ExVectorConst(value v)
        ExByteConst(value i)
        ExIntConstByte(value i)
        ExStructConst(struct_value o, struct_size i, value l)
        ExInt64Const(value i)
        ExUInt64Const(value i)
        ExSetSet(set_property e, elements l)
        ExSetMap(map_property e, elements l)
        ExSetConst(inner_property p, elements l)
        ExMapConst(key_property p, value_property p, elements l)
        ExArrayConst(inner_property p, elements l)
        ExStructMemberContext(struct_member_expression p, struct_expression e)
        ExInstanceDelegate(function_name n)
        ExPushExecutionFlow(pushing_address i)
        ExSkipOffsetConst(value i)
        ExComputedJump(code_offset_expression e)
        ExPopExecutionFlowIfNot(boolean_expression e)
        ExInterfaceContext(interface_value e)
        ExClearMulticastDelegate(delegate_to_clear e)
        ExSoftObjectConst(value e)
        ExFieldPathConst(value e)
        ExBindDelegate(function_name n, delegate e, object_term e)
        ExLetValueOnPersistentFrame(destination_property p, assignment_expression e)
    }
}
fn special(o: &mut Vec<Tok>, e: &KismetExpression) {
    use KismetExpression::*;
    match e {
        ExFloatConst(x) => float(o, x.value.0 as f64),
        ExDoubleConst(x) => float(o, x.value.0),
        ExTransformConst(x) => {
            let r = &x.value.rotation;
            for f in [r.x.0, r.y.0, r.z.0, r.w.0] {
                float(o, f);
            }
            field!(o, x.value.translation, v);
            field!(o, x.value.scale, v);
        }
        ExTextConst(x) => {
            let t = &x.value;
            let k = u8::from(t.text_literal_type);
            o.push(Tok::I(k as i64));
            match k {
                1 => {
                    wopt(o, &t.localized_source);
                    wopt(o, &t.localized_key);
                    wopt(o, &t.localized_namespace);
                }
                2 => wopt(o, &t.invariant_literal_string),
                3 => wopt(o, &t.literal_string),
                4 => {
                    if let Some(i) = &t.string_table_asset {
                        o.push(Tok::I(i.index as i64));
                    }
                    wopt(o, &t.string_table_id);
                    wopt(o, &t.string_table_key);
                }
                _ => {}
            }
        }
        ExSetArray(x) => {
            if let Some(e) = &x.assigning_property {
                walk(o, e);
            }
            if let Some(i) = &x.array_inner_prop {
                o.push(Tok::I(i.index as i64));
            }
            wl(o, &x.elements);
        }
        ExPrimitiveCast(x) => {
            o.push(Tok::I(match x.conversion_type {
                CastToken::Old(t) => u8::from(t),
                CastToken::New(t) => u8::from(t),
            } as i64));
            walk(o, &x.target);
        }
        ExSwitchValue(x) => {
            o.push(Tok::I(x.cases.len() as i64));
            o.push(Tok::I(x.end_goto_offset as i64));
            walk(o, &x.index_term);
            for k in &x.cases {
                walk(o, &k.case_index_value_term);
                o.push(Tok::I(k.next_offset as i64));
                walk(o, &k.case_term);
            }
            walk(o, &x.default_term);
        }
        ExInstrumentationEvent(x) => {
            o.push(Tok::I(u8::from(x.event_type) as i64));
            if let Some(n) = &x.event_name {
                o.push(fname(n));
            }
        }
        // the rest has no fields
        _ => {}
    }
}
