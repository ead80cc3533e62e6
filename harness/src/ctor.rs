//! Constructors and conversions
use crate::{conv::*, ops::*};
use gvas::{
    properties::{
        Property,
        array_property::ArrayProperty,
        delegate_property::*,
        enum_property::EnumProperty,
        field_path_property::*,
        int_property::*,
        map_property::MapProperty,
        name_property::NameProperty,
        object_property::ObjectProperty,
        set_property::SetProperty,
        str_property::StrProperty,
        struct_property::{StructProperty, StructPropertyValue},
        struct_types::*,
        text_property::{FText, TextProperty},
        unknown_property::UnknownProperty,
    },
    types::map::HashableIndexMap,
};
use serde_json::{Value, json};

fn sv_from(kd: &str, vs: &Value) -> StructPropertyValue {
    let f = |i: usize| f32v(&vs[i]);
    let d = |i: usize| f64v(&vs[i]);
    match kd {
        "VectorF" => VectorF::new(f(0), f(1), f(2)).into(),
        "VectorD" => VectorD::new(d(0), d(1), d(2)).into(),
        "Vector2F" => Vector2F::new(f(0), f(1)).into(),
        "Vector2D" => Vector2D::new(d(0), d(1)).into(),
        "RotatorF" => RotatorF::new(f(0), f(1), f(2)).into(),
        "RotatorD" => RotatorD::new(d(0), d(1), d(2)).into(),
        "QuatF" => QuatF::new(f(0), f(1), f(2), f(3)).into(),
        "QuatD" => QuatD::new(d(0), d(1), d(2), d(3)).into(),
        "DateTime" => DateTime::new(u64v(&vs[0])).into(),
        "Timespan" => Timespan::new(u64v(&vs[0])).into(),
        "LinearColor" => LinearColor::new(f(0), f(1), f(2), f(3)).into(),
        "IntPoint" => IntPoint::new(i32v(&vs[0]), i32v(&vs[1])).into(),
        "Guid" => guid(&vs[0]).into(),
        x => panic!("struct {x}"),
    }
}
fn num(kd: &str, v: &Value) -> Property {
    match kd {
        "Int8" => Int8Property::new(bytes(v)[0] as i8).into(),
        "Int16" => Int16Property::new(u16v(v) as i16).into(),
        "UInt16" => UInt16Property::new(u16v(v)).into(),
        "Int" => IntProperty::new(i32v(v)).into(),
        "UInt32" => UInt32Property::new(u32v(v)).into(),
        "Int64" => Int64Property::new(u64v(v) as i64).into(),
        "UInt64" => UInt64Property::new(u64v(v)).into(),
        "Float" => FloatProperty::new(f32v(v)).into(),
        "Double" => DoubleProperty::new(f64v(v)).into(),
        x => panic!("number {x}"),
    }
}
fn del(v: &Value) -> Delegate {
    Delegate::new(st(&v[0]), st(&v[1]))
}
fn many(v: &Value) -> MulticastScriptDelegate {
    MulticastScriptDelegate::new(list(v).iter().map(del).collect())
}
pub fn make(f: &str, a: &Value) -> Result<Property, String> {
    let s = |i: usize| st(&a[i]);
    let props = |v: &Value| list(v).iter().map(prop_in).collect::<Vec<_>>();
    Ok(match f {
        "num" => num(a[0].as_str().unwrap(), &a[1]),
        "bool" => BoolProperty::new(a[0][0] == 1).into(),
        "byte" => ByteProperty::new(ost(&a[0]), BytePropertyValue::Byte(bytes(&a[1])[0])).into(),
        "new_byte" => ByteProperty::new_byte(ost(&a[0]), bytes(&a[1])[0]).into(),
        "bytens" => ByteProperty::new(ost(&a[0]), BytePropertyValue::Namespaced(s(1))).into(),
        "new_namespaced" => ByteProperty::new_namespaced(ost(&a[0]), s(1)).into(),
        "enum" => EnumProperty::new(ost(&a[0]), s(1)).into(),
        "str" => StrProperty::new(ost(&a[0])).into(),
        "str_from_ref" => StrProperty::from(&*s(0)).into(),
        "str_from_string" => StrProperty::from(s(0)).into(),
        "name_from_ref" => NameProperty::from(&*s(0)).into(),
        "name_from_string" => NameProperty::from(s(0)).into(),
        "name_from_option" => NameProperty::from(ost(&a[0])).into(),
        "object" => ObjectProperty::new(s(0)).into(),
        "object_from_ref" => ObjectProperty::from(&*s(0)).into(),
        "delegate" => DelegateProperty::new(del(a)).into(),
        "minline" => MulticastInlineDelegateProperty::new(many(&a[0])).into(),
        "msparse" => MulticastSparseDelegateProperty::new(many(&a[0])).into(),
        "path" => FieldPathProperty::new(FieldPath::new(list(&a[0]).iter().map(st).collect(), s(1))).into(),
        "text" => TextProperty::new(text_in(&a[0])).into(),
        "text_none" => TextProperty::new(FText::new_none(u32v(&a[0]), list(&a[1]).first().map(ost))).into(),
        "text_base" => TextProperty::new(FText::new_base(u32v(&a[0]), ost(&a[1]), ost(&a[2]), ost(&a[3]))).into(),
        "struct" => StructProperty::new(guid(&a[0]), s(1), sv_in(&a[2])).into(),
        "sv" => sv_from(a[0].as_str().unwrap(), &a[1]).into(),
        "set" => SetProperty::new(s(0), u32v(&a[1]), props(&a[2])).into(),
        "unknown" => UnknownProperty::new(s(0), bytes(&a[1])).into(),
        "array" => {
            let info = list(&a[1]).first().map(|f| (st(&f[0]), st(&f[1]), guid(&f[2])));
            call(|| ArrayProperty::new(s(0), info, props(&a[2]))).ok("array")?.into()
        }
        "map" => MapProperty::new(s(0), s(1), u32v(&a[2]), kvs_in(&a[3])).into(),
        x => panic!("constructor {x}"),
    })
}
/// the calls that make p
pub fn ways(p: &Value) -> Vec<(&'static str, Value)> {
    let zero = p["ai"] == vb(&[0; 4]);
    let some = p["o"] != json!([]);
    match p["k"].as_str().unwrap() {
        "Bool" => vec![("bool", json!([p["v"]]))],
        "Byte" => ["byte", "new_byte"].map(|f| (f, json!([p["n"], p["v"]]))).to_vec(),
        "ByteNs" => ["bytens", "new_namespaced"].map(|f| (f, json!([p["n"], p["s"]]))).to_vec(),
        "Enum" => vec![("enum", json!([p["t"], p["s"]]))],
        "Str" if some => vec![("str", json!([p["o"]])), ("str_from_ref", p["o"].clone()), ("str_from_string", p["o"].clone())],
        "Str" => vec![("str", json!([p["o"]]))],
        "Name" if zero && some => vec![("name_from_option", json!([p["o"]])), ("name_from_ref", p["o"].clone()), ("name_from_string", p["o"].clone())],
        "Name" if zero => vec![("name_from_option", json!([p["o"]]))],
        "Object" => ["object", "object_from_ref"].map(|f| (f, json!([p["s"]]))).to_vec(),
        "Delegate" => vec![("delegate", p["d"].clone())],
        "MInline" => vec![("minline", json!([p["dl"]]))],
        "MSparse" => vec![("msparse", json!([p["dl"]]))],
        "FieldPath" => vec![("path", json!([p["path"], p["s"]]))],
        "Text" => {
            let (x, h) = (&p["x"], &p["x"]["h"]);
            let mut l = vec![("text", json!([x]))];
            match h["k"].as_str().unwrap() {
                "Empty" => l.push(("text_none", json!([x["fl"], []]))),
                "None" => l.push(("text_none", json!([x["fl"], [h["o"]]]))),
                "Base" => l.push(("text_base", json!([x["fl"], h["ns"], h["key"], h["src"]]))),
                _ => {}
            }
            l
        }
        "Struct" => vec![("struct", json!([p["guid"], p["tn"], p["sv"]]))],
        "SV" if p["sv"]["k"] != "Custom" && p["sv"]["k"] != "Tags" => vec![("sv", json!([p["sv"]["k"], p["sv"]["vs"]]))],
        "Set" => vec![("set", json!([p["et"], p["af"], p["es"]]))],
        "Unknown" => vec![("unknown", json!([p["ty"], p["raw"]]))],
        "Array" => vec![("array", json!([p["et"], p["f"], p["es"]]))],
        "Map" => vec![("map", json!([p["kt"], p["vt"], p["af"], p["kvs"]]))],
        k @ ("Int8" | "Int16" | "UInt16" | "Int" | "UInt32" | "Int64" | "UInt64" | "Float" | "Double") => vec![("num", json!([k, p["v"]]))],
        _ => vec![],
    }
}
/// a property is converted to and from its own type, and to no other
pub fn convert(p: &Property) -> Out {
    let mut own = 0;
    macro_rules! each {
        ($($t:ident),*) => {$({
            let is = matches!(p, Property::$t(_));
            let r: Result<$t, _> = p.clone().try_into();
            if r.is_ok() != is {
                return Err(format!("conversion to {}: {}", stringify!($t), if is { "fails" } else { "succeeds" }));
            }
            if let Ok(x) = r {
                own += 1;
                let q = Property::from(x);
                same("converted property", &prop_out(&q), &prop_out(p))?;
                if &q != p {
                    return Err("a converted property is not equal to the original".into());
                }
            }
        })*};
    }
    each!(
        ArrayProperty, BoolProperty, ByteProperty, DoubleProperty, EnumProperty, FloatProperty, Int16Property, Int64Property, Int8Property, IntProperty,
        MapProperty, NameProperty, ObjectProperty, DelegateProperty, MulticastInlineDelegateProperty, MulticastSparseDelegateProperty, FieldPathProperty,
        SetProperty, StrProperty, StructProperty, StructPropertyValue, TextProperty, UInt16Property, UInt32Property, UInt64Property, UnknownProperty
    );
    if own != 1 {
        return Err(format!("{own} conversions succeed"));
    }
    Ok(())
}
pub fn op_ctor(v: &Value) -> Out {
    let f = v["f"].as_str().unwrap();
    let x = prop_in(&v["x"]);
    did();
    guard(|| convert(&x))??;
    if f != "none" {
        let p = guard(|| make(f, &v["a"]))??;
        same(&format!("value made by {f}"), &prop_out(&p), &v["x"])?;
        if p != x || hash(&p) != hash(&x) {
            return Err(format!("value made by {f} is not equal to the same value built from its parts"));
        }
    }
    Ok(())
}
pub fn op_show(v: &Value) -> Out {
    use StructPropertyValue::*;
    did();
    let x = sv_from(v["k"].as_str().unwrap(), &v["vs"]);
    let got = guard(|| match &x {
        VectorF(x) => x.to_string(),
        VectorD(x) => x.to_string(),
        Vector2F(x) => x.to_string(),
        Vector2D(x) => x.to_string(),
        RotatorF(x) => x.to_string(),
        RotatorD(x) => x.to_string(),
        QuatF(x) => x.to_string(),
        QuatD(x) => x.to_string(),
        DateTime(x) => x.to_string(),
        Timespan(x) => x.to_string(),
        LinearColor(x) => x.to_string(),
        IntPoint(x) => x.to_string(),
        _ => unreachable!(),
    })?;
    // the components by name and in order; spacing is free
    let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    if norm(&got) != norm(&st(&v["text"])) {
        return Err(format!("shown as {got:?} instead of {:?}", st(&v["text"])));
    }
    Ok(())
}
pub fn op_imap(v: &Value) -> Out {
    type M = HashableIndexMap<String, u32>;
    let es: Vec<(String, u32)> = list(&v["es"]).iter().map(|e| (st(&e[0]), u32v(&e[1]))).collect();
    let out = |m: &M| -> Value { m.into_iter().map(|(k, v)| json!([vs(k), vb(&v.to_le_bytes())])).collect() };
    let from = guard(|| -> M {
        fn of<const N: usize>(es: &[(String, u32)]) -> M {
            let a: [(String, u32); N] = es.to_vec().try_into().unwrap();
            M::from(a)
        }
        macro_rules! sizes {
            ($($n:literal)*) => { match es.len() { $($n => of::<$n>(&es),)* _ => unreachable!() } };
        }
        sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 31 32 33 63 64 65 100 128 129 256 257 300)
    })?;
    let mut all = vec![("from an array", from)];
    for (what, mut m) in [("new", M::new()), ("with capacity", M::with_capacity(es.len())), ("large capacity", M::with_capacity(100)), ("default", M::default())] {
        if !m.is_empty() {
            return Err(format!("{what}: not empty"));
        }
        es.iter().for_each(|(k, v)| {
            m.insert(k.clone(), *v);
        });
        all.push((what, m));
    }
    let first = all[0].1.clone();
    for (what, mut m) in all {
        did();
        same(what, &guard(|| out(&m))?, &v["x"])?;
        if m != first || hash(&m) != hash(&first) || m.len() != list(&v["x"]).len() {
            return Err(format!("{what}: maps of the same entries differ"));
        }
        for e in list(&v["x"]) {
            if m.get(&st(&e[0])) != Some(&u32v(&e[1])) {
                return Err(format!("{what}: wrong value for a key"));
            }
        }
        for (_, v) in &mut m {
            *v += 7;
        }
        let exp: Value = list(&v["x"]).iter().map(|e| json!([e[0], vb(&(u32v(&e[1]) + 7).to_le_bytes())])).collect();
        same("entries changed in place", &out(&m), &exp)?;
    }
    Ok(())
}
