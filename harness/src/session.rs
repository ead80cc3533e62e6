//! Sessions: sequences of loads, edits through the typed accessors, saves, exports (spec/Session.tla).
use crate::{conv::*, jsonx, ops::*};
use gvas::{
    GvasFile,
    properties::{Property, array_property::ArrayProperty, map_property::MapProperty, struct_property::StructPropertyValue},
};
use indexmap::IndexMap;
use serde_json::{Value, json};

macro_rules! accessors {
    ($($kind:literal $variant:ident $get:ident $get_mut:ident;)*) => {
        /// the accessors that give access to a property, and whether both forms agree
        pub fn access(p: &mut Property) -> Result<Vec<&'static str>, String> {
            let mut v = vec![];
            $({
                let copy = p.$get().cloned();
                let m = p.$get_mut().cloned();
                if copy != m {
                    return Err(format!("{} and {} disagree", stringify!($get), stringify!($get_mut)));
                }
                if copy.is_some() { v.push(stringify!($get)); }
            })*
            Ok(v)
        }
        /// the accessor of a kind of value
        fn accessor_of(kind: &str) -> Option<&'static str> {
            match kind { $($kind => Some(stringify!($get)),)* "ByteNs" => Some("get_byte"), _ => None }
        }
        /// replace a value through its accessor
        fn assign(p: &mut Property, new: Property) -> Out {
            match new {
                $(Property::$variant(x) => match p.$get_mut() {
                    Some(r) => { *r = x; Ok(()) }
                    None => Err(format!("{} refuses", stringify!($get_mut))),
                },)*
                Property::StructPropertyValue(x) => match p {
                    Property::StructPropertyValue(r) => assign_sv(r, x),
                    _ => Err("not a struct value".into()),
                },
            }
        }
        fn through(p: &Property) -> Option<Value> {
            $(if let Some(x) = p.$get() { return Some(prop_out(&Property::$variant(x.clone()))); })*
            None
        }
    };
}
accessors! {
    "Array" ArrayProperty get_array get_array_mut;
    "Enum" EnumProperty get_enum get_enum_mut;
    "Bool" BoolProperty get_bool get_bool_mut;
    "Byte" ByteProperty get_byte get_byte_mut;
    "Double" DoubleProperty get_f64 get_f64_mut;
    "Float" FloatProperty get_f32 get_f32_mut;
    "Int16" Int16Property get_i16 get_i16_mut;
    "Int64" Int64Property get_i64 get_i64_mut;
    "Int8" Int8Property get_i8 get_i8_mut;
    "Int" IntProperty get_int get_int_mut;
    "UInt16" UInt16Property get_u16 get_u16_mut;
    "UInt32" UInt32Property get_u32 get_u32_mut;
    "UInt64" UInt64Property get_u64 get_u64_mut;
    "Map" MapProperty get_map get_map_mut;
    "Name" NameProperty get_name get_name_mut;
    "Object" ObjectProperty get_object_ref get_object_ref_mut;
    "Delegate" DelegateProperty get_delegate get_delegate_mut;
    "MInline" MulticastInlineDelegateProperty get_multicast_inline_delegate get_multicast_inline_delegate_mut;
    "MSparse" MulticastSparseDelegateProperty get_multicast_sparse_delegate get_multicast_sparse_delegate_mut;
    "FieldPath" FieldPathProperty get_field_path get_field_path_mut;
    "Set" SetProperty get_set get_set_mut;
    "Str" StrProperty get_str get_str_mut;
    "Struct" StructProperty get_struct get_struct_mut;
    "Text" TextProperty get_text get_text_mut;
    "Unknown" UnknownProperty get_unknown get_unknown_mut;
}
macro_rules! sv_accessors {
    ($($kind:literal $variant:ident $get:ident $get_mut:ident;)*) => {
        pub fn access_sv(p: &mut StructPropertyValue) -> Result<Vec<&'static str>, String> {
            let mut v = vec![];
            $({
                let copy = p.$get().cloned();
                let m = p.$get_mut().cloned();
                if copy != m {
                    return Err(format!("{} and {} disagree", stringify!($get), stringify!($get_mut)));
                }
                if copy.is_some() { v.push(stringify!($get)); }
            })*
            Ok(v)
        }
        fn sv_accessor_of(kind: &str) -> Option<&'static str> {
            match kind { $($kind => Some(stringify!($get)),)* _ => None }
        }
        fn assign_sv(p: &mut StructPropertyValue, new: StructPropertyValue) -> Out {
            if std::mem::discriminant(p) != std::mem::discriminant(&new) {
                *p = new;
                return Ok(());
            }
            match new {
                $(StructPropertyValue::$variant(x) => match p.$get_mut() {
                    Some(r) => { *r = x; Ok(()) }
                    None => Err(format!("{} refuses", stringify!($get_mut))),
                },)*
                x => { *p = x; Ok(()) }
            }
        }
    };
}
sv_accessors! {
    "VectorF" VectorF get_vector_f get_vector_f_mut;
    "VectorD" VectorD get_vector_d get_vector_d_mut;
    "RotatorF" RotatorF get_rotator_f get_rotator_f_mut;
    "RotatorD" RotatorD get_rotator_d get_rotator_d_mut;
    "QuatF" QuatF get_quat_f get_quat_f_mut;
    "QuatD" QuatD get_quat_d get_quat_d_mut;
    "DateTime" DateTime get_date_time get_date_time_mut;
    "IntPoint" IntPoint get_int_point get_int_point_mut;
    "Guid" Guid get_guid get_guid_mut;
    "Custom" CustomStruct get_custom_struct get_custom_struct_mut;
}

/// exactly the accessor of its kind gives access to a value
fn exact(p: &mut Property) -> Out {
    did();
    let out = prop_out(p);
    let kind = out["k"].as_str().unwrap().to_string();
    let want: Vec<&str> = accessor_of(&kind).into_iter().collect();
    let got = access(p)?;
    if got != want {
        return Err(format!("a {kind} is accessible through {got:?} instead of {want:?}"));
    }
    if let Some(t) = through(p) {
        same("value seen through the accessor", &t, &out)?;
    }
    match p {
        Property::StructProperty(s) => exact_sv(&mut s.value),
        Property::StructPropertyValue(s) => exact_sv(s),
        _ => Ok(()),
    }
}
fn exact_sv(s: &mut StructPropertyValue) -> Out {
    let out = sv_out(s);
    let kind = out["k"].as_str().unwrap().to_string();
    let want: Vec<&str> = sv_accessor_of(&kind).into_iter().collect();
    let got = access_sv(s)?;
    if got == want { Ok(()) } else { Err(format!("a {kind} struct is accessible through {got:?} instead of {want:?}")) }
}

enum Place<'a> {
    P(&'a mut Property),
    S(&'a mut StructPropertyValue),
    /// an element or entry of a compact form
    Elem(&'a mut ArrayProperty, usize),
    Mval(&'a mut MapProperty, usize),
}
fn field<'a>(s: &'a mut StructPropertyValue, nm: &str, i: usize) -> Result<Place<'a>, String> {
    let fs = s.get_custom_struct_mut().ok_or("get_custom_struct_mut refuses")?;
    let ps = fs.get_mut(nm).ok_or_else(|| format!("no field {nm:?}"))?;
    Ok(Place::P(ps.get_mut(i).ok_or("no such repetition")?))
}
fn go<'a>(at: Place<'a>, step: &Value) -> Result<Place<'a>, String> {
    let (kind, nm, i) = (step[0].as_str().unwrap(), st(&step[1]), step[2].as_u64().unwrap() as usize);
    match (kind, at) {
        ("field", Place::P(Property::StructPropertyValue(s))) | ("field", Place::S(s)) => field(s, &nm, i),
        ("field", Place::P(p)) => field(&mut p.get_struct_mut().ok_or("get_struct_mut refuses")?.value, &nm, i),
        ("elem", Place::P(p)) => {
            if matches!(p, Property::SetProperty(_)) {
                let s = p.get_set_mut().ok_or("get_set_mut refuses")?;
                return Ok(Place::P(s.properties.get_mut(i).ok_or("no such element")?));
            }
            match p.get_array_mut().ok_or("get_array_mut refuses")? {
                ArrayProperty::Structs { structs, .. } => Ok(Place::S(structs.get_mut(i).ok_or("no such element")?)),
                ArrayProperty::Properties { properties, .. } => Ok(Place::P(properties.get_mut(i).ok_or("no such element")?)),
                a => Ok(Place::Elem(a, i)),
            }
        }
        ("mval", Place::P(p)) => {
            macro_rules! val {
                ($m:expr) => {
                    Ok(Place::P($m.get_index_mut(i).ok_or("no such entry")?.1))
                };
            }
            match p.get_map_mut().ok_or("get_map_mut refuses")? {
                MapProperty::EnumProperty { enum_props: m, .. } => val!(m),
                MapProperty::NameProperty { name_props: m, .. } => val!(m),
                MapProperty::StrProperty { str_props: m, .. } => val!(m),
                MapProperty::Properties { value: m, .. } => val!(m),
                m => Ok(Place::Mval(m, i)),
            }
        }
        _ => Err(format!("no {kind} there")),
    }
}
fn find<'a>(f: &'a mut GvasFile, path: &[Value]) -> Result<Place<'a>, String> {
    let nm = st(&path[0][1]);
    let mut at = Place::P(f.properties.get_mut(&nm).ok_or_else(|| format!("no property {nm:?}"))?);
    for s in &path[1..] {
        at = go(at, s)?;
    }
    Ok(at)
}
fn key(v: &Value) -> String {
    match v["k"].as_str().unwrap() {
        "Enum" => st(&v["s"]),
        _ => ost(&v["o"]).unwrap(),
    }
}
fn set_elem(a: &mut ArrayProperty, i: usize, v: &Value) -> Out {
    match a {
        ArrayProperty::Bools { bools } => bools[i] = v["v"][0] == json!(1),
        ArrayProperty::Bytes { bytes } => bytes[i] = v["v"][0].as_u64().unwrap() as u8,
        ArrayProperty::Enums { enums } => enums[i] = st(&v["s"]),
        ArrayProperty::Floats { floats } => floats[i] = f32v(&v["v"]).into(),
        ArrayProperty::Ints { ints } => ints[i] = i32v(&v["v"]),
        ArrayProperty::Names { names } => names[i] = ost(&v["o"]),
        ArrayProperty::Strings { strings } => strings[i] = ost(&v["o"]),
        _ => return Err("not a compact array".into()),
    }
    Ok(())
}
fn push_elem(a: &mut ArrayProperty, v: &Value) {
    match a {
        ArrayProperty::Bools { bools } => bools.push(v["v"][0] == json!(1)),
        ArrayProperty::Bytes { bytes } => bytes.push(v["v"][0].as_u64().unwrap() as u8),
        ArrayProperty::Enums { enums } => enums.push(st(&v["s"])),
        ArrayProperty::Floats { floats } => floats.push(f32v(&v["v"]).into()),
        ArrayProperty::Ints { ints } => ints.push(i32v(&v["v"])),
        ArrayProperty::Names { names } => names.push(ost(&v["o"])),
        ArrayProperty::Strings { strings } => strings.push(ost(&v["o"])),
        ArrayProperty::Structs { structs, .. } => structs.push(sv_in(&v["sv"])),
        ArrayProperty::Properties { properties, .. } => properties.push(prop_in(v)),
    }
}
fn pop_elem(a: &mut ArrayProperty) {
    match a {
        ArrayProperty::Bools { bools } => drop(bools.pop()),
        ArrayProperty::Bytes { bytes } => drop(bytes.pop()),
        ArrayProperty::Enums { enums } => drop(enums.pop()),
        ArrayProperty::Floats { floats } => drop(floats.pop()),
        ArrayProperty::Ints { ints } => drop(ints.pop()),
        ArrayProperty::Names { names } => drop(names.pop()),
        ArrayProperty::Strings { strings } => drop(strings.pop()),
        ArrayProperty::Structs { structs, .. } => drop(structs.pop()),
        ArrayProperty::Properties { properties, .. } => drop(properties.pop()),
    }
}
/// insert into, or (without a value) remove from, a map
fn entry(m: &mut MapProperty, k: &Value, v: Option<&Value>) {
    fn put<V>(m: &mut IndexMap<String, V>, k: &Value, v: Option<V>) {
        match v {
            Some(v) => drop(m.insert(key(k), v)),
            None => drop(m.shift_remove(&key(k))),
        }
    }
    let b = |v: &Value| v["v"][0] == json!(1);
    let n = |v: &Value| i32v(&v["v"]);
    match m {
        MapProperty::EnumBool { enum_bools: m } => put(m, k, v.map(b)),
        MapProperty::NameBool { name_bools: m } => put(m, k, v.map(b)),
        MapProperty::StrBool { str_bools: m } => put(m, k, v.map(b)),
        MapProperty::EnumInt { enum_ints: m } => put(m, k, v.map(n)),
        MapProperty::NameInt { name_ints: m } => put(m, k, v.map(n)),
        MapProperty::StrInt { str_ints: m } => put(m, k, v.map(n)),
        MapProperty::StrStr { str_strs: m } => put(m, k, v.map(|v| ost(&v["o"]))),
        MapProperty::EnumProperty { enum_props: m, .. } => put(m, k, v.map(prop_in)),
        MapProperty::NameProperty { name_props: m, .. } => put(m, k, v.map(prop_in)),
        MapProperty::StrProperty { str_props: m, .. } => put(m, k, v.map(prop_in)),
        MapProperty::Properties { value: m, .. } => match v {
            Some(v) => drop(m.insert(prop_in(k), prop_in(v))),
            None => drop(m.shift_remove(&prop_in(k))),
        },
    }
}
fn set_mval(m: &mut MapProperty, i: usize, v: &Value) -> Out {
    macro_rules! put {
        ($m:expr, $v:expr) => {
            *$m.get_index_mut(i).ok_or("no such entry")?.1 = $v
        };
    }
    let b = v["v"][0] == json!(1);
    match m {
        MapProperty::EnumBool { enum_bools: m } => put!(m, b),
        MapProperty::NameBool { name_bools: m } => put!(m, b),
        MapProperty::StrBool { str_bools: m } => put!(m, b),
        MapProperty::EnumInt { enum_ints: m } => put!(m, i32v(&v["v"])),
        MapProperty::NameInt { name_ints: m } => put!(m, i32v(&v["v"])),
        MapProperty::StrInt { str_ints: m } => put!(m, i32v(&v["v"])),
        MapProperty::StrStr { str_strs: m } => put!(m, ost(&v["o"])),
        _ => return Err("not a compact map".into()),
    }
    Ok(())
}

/// one edit of the specification, through the accessors
pub fn edit(f: &mut GvasFile, path: &[Value], e: &Value) -> Out {
    let what = e["e"].as_str().unwrap();
    if path.is_empty() {
        match what {
            "puttop" => drop(f.properties.insert(st(&e["nm"]), prop_in(&e["v"]))),
            "deltop" => drop(f.properties.shift_remove(&st(&e["nm"]))),
            "hdr" => f.header = header_in(&e["h"]),
            "pack" => f.deserialized_game_version = gv_in(&e["gv"]),
            _ => return Err(format!("{what}?")),
        }
        return Ok(());
    }
    match find(f, path)? {
        Place::Elem(a, i) => set_elem(a, i, &e["v"]),
        Place::Mval(m, i) => set_mval(m, i, &e["v"]),
        Place::S(s) => {
            exact_sv(s)?;
            match what {
                "set" => assign_sv(s, sv_in(&e["v"]["sv"])),
                _ => edit_fields(s, e),
            }
        }
        Place::P(p) => {
            exact(p)?;
            match what {
                "set" => assign(p, prop_in(&e["v"])),
                "push" | "pop" => {
                    if matches!(p, Property::SetProperty(_)) {
                        let s = p.get_set_mut().ok_or("get_set_mut refuses")?;
                        if what == "push" { s.properties.push(prop_in(&e["v"])) } else { drop(s.properties.pop()) }
                    } else {
                        let a = p.get_array_mut().ok_or("get_array_mut refuses")?;
                        if what == "push" { push_elem(a, &e["v"]) } else { pop_elem(a) }
                    }
                    Ok(())
                }
                "putk" | "delk" => {
                    let m = p.get_map_mut().ok_or("get_map_mut refuses")?;
                    entry(m, &e["key"], if what == "putk" { Some(&e["v"]) } else { None });
                    Ok(())
                }
                _ => match p {
                    Property::StructPropertyValue(s) => edit_fields(s, e),
                    p => edit_fields(&mut p.get_struct_mut().ok_or("get_struct_mut refuses")?.value, e),
                },
            }
        }
    }
}
fn edit_fields(s: &mut StructPropertyValue, e: &Value) -> Out {
    let fs = s.get_custom_struct_mut().ok_or("get_custom_struct_mut refuses")?;
    match e["e"].as_str().unwrap() {
        "putf" => drop(fs.insert(st(&e["nm"]), list(&e["ps"]).iter().map(prop_in).collect())),
        "delf" => drop(fs.shift_remove(&st(&e["nm"]))),
        x => return Err(format!("{x}?")),
    }
    Ok(())
}
/// the value at a location, seen through the accessors
pub fn get(f: &GvasFile, path: &[Value]) -> Result<Value, String> {
    let mut f = f.clone();
    match find(&mut f, path)? {
        Place::P(p) => {
            exact(p)?;
            Ok(prop_out(p))
        }
        Place::S(s) => {
            exact_sv(s)?;
            Ok(json!({"k": "SV", "sv": sv_out(s)}))
        }
        _ => Err("inside a compact form".into()),
    }
}

/// {h, gv, b, st: steps}; a step may say what memory (f) and disk (b) hold after it
pub fn op_session(v: &Value) -> Out {
    let h = hints(&v["h"]);
    let plain = bytes(&v["b"]);
    let gv0 = v["gv"].as_str().unwrap_or("Default");
    let mut disk = wrap(&plain, gv0);
    let mut disk_gv = gv0.to_string();
    let mut mem = read_file(&disk, &h, gv0).ok("first load")?;
    for (i, s) in list(&v["st"]).iter().enumerate() {
        let a = s["a"].as_str().unwrap();
        let what = format!("step {i} ({a})");
        let fail = |e: String| format!("{what}: {e}");
        match a {
            "edit" => edit(&mut mem, list(&s["p"]), &s["e"]).map_err(fail)?,
            "cloneedit" => {
                let before = file_out(&mem);
                let mut c = mem.clone();
                if c != mem {
                    return Err(fail("a copy compares unequal".into()));
                }
                edit(&mut c, list(&s["p"]), &s["e"]).map_err(fail)?;
                drop(c);
                same(&what, &file_out(&mem), &before)?;
            }
            "save" => {
                disk = write_file(&mem).ok(&what)?;
                disk_gv = gv_out(mem.deserialized_game_version).to_string();
            }
            "load" => mem = read_file(&disk, &h, &disk_gv).ok(&what)?,
            "json" => {
                let exp = file_out(&mem);
                mem = jsonx::import(&jsonx::export(&mem).map_err(fail)?).map_err(fail)?;
                same(&what, &file_out(&mem), &exp)?;
            }
            _ => return Err(fail("?".into())),
        }
        if let Some(f) = s.get("f") {
            did();
            same(&format!("in memory after {what}"), &file_out(&mem), f)?;
        }
        if let Some(b) = s.get("b") {
            did();
            let b = bytes(b);
            if disk_gv == "Default" {
                same_bytes(&format!("on disk after {what}"), &disk, &b)?;
            } else {
                check_container(&disk, &disk_gv, &b).map_err(|e| format!("on disk after {what}: {e}"))?;
            }
        }
    }
    Ok(())
}
