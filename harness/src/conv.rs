//! Conversion between the library's values and the value domain of the specification
//! (spec/GvasEnc.tla), written as JSON.
use gvas::{
    GvasFile, GvasHeader,
    engine_version::FEngineVersion,
    error::{DeserializeError, Error},
    game_version::{DeserializedGameVersion, PalworldCompressionType},
    properties::{
        Property,
        array_property::ArrayProperty,
        delegate_property::*,
        enum_property::EnumProperty,
        field_path_property::{FieldPath, FieldPathProperty},
        int_property::*,
        map_property::MapProperty,
        name_property::NameProperty,
        object_property::ObjectProperty,
        set_property::SetProperty,
        str_property::StrProperty,
        struct_property::{StructProperty, StructPropertyValue},
        struct_types::*,
        text_property::*,
        unknown_property::UnknownProperty,
    },
    types::{Guid, map::HashableIndexMap},
};
use indexmap::IndexMap;
use ordered_float::OrderedFloat;
use serde_json::{Value, json};

pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => panic!("bytes: {v}"),
    }
}
pub fn arr<const N: usize>(v: &Value) -> [u8; N] {
    bytes(v).try_into().unwrap()
}
pub fn vb(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
pub fn st(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn vs(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}
pub fn ost(v: &Value) -> Option<String> {
    v.as_array().unwrap().first().map(st)
}
pub fn vos(s: &Option<String>) -> Value {
    match s {
        Some(s) => json!([vs(s)]),
        None => json!([]),
    }
}
pub fn u16v(v: &Value) -> u16 {
    u16::from_le_bytes(arr(v))
}
pub fn u32v(v: &Value) -> u32 {
    u32::from_le_bytes(arr(v))
}
pub fn i32v(v: &Value) -> i32 {
    i32::from_le_bytes(arr(v))
}
pub fn u64v(v: &Value) -> u64 {
    u64::from_le_bytes(arr(v))
}
pub fn f32v(v: &Value) -> f32 {
    f32::from_le_bytes(arr(v))
}
pub fn f64v(v: &Value) -> f64 {
    f64::from_le_bytes(arr(v))
}
fn of32(v: &Value) -> OrderedFloat<f32> {
    OrderedFloat(f32v(v))
}
fn of64(v: &Value) -> OrderedFloat<f64> {
    OrderedFloat(f64v(v))
}
pub fn guid(v: &Value) -> Guid {
    Guid(arr(v))
}
fn list(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
fn k(v: &Value) -> &str {
    v["k"].as_str().unwrap()
}
fn opt(v: &Value) -> Option<&Value> {
    list(v).first()
}

// ---------------------------------------------------------------- text
fn i8of(v: &Value) -> i8 {
    v.as_i64().unwrap() as u8 as i8
}
fn fo_in(v: &Value) -> Option<NumberFormattingOptions> {
    opt(v).map(|f| NumberFormattingOptions {
        always_include_sign: f["sg"] == 1,
        use_grouping: f["gr"] == 1,
        rounding_mode: RoundingMode::try_from(i8of(&f["rm"])).unwrap(),
        minimum_integral_digits: i32v(&f["vs"][0]),
        maximum_integral_digits: i32v(&f["vs"][1]),
        minimum_fractional_digits: i32v(&f["vs"][2]),
        maximum_fractional_digits: i32v(&f["vs"][3]),
    })
}
pub fn fo_out(f: &Option<NumberFormattingOptions>) -> Value {
    match f {
        None => json!([]),
        Some(f) => json!([{
            "sg": f.always_include_sign as u8, "gr": f.use_grouping as u8, "rm": i8::from(f.rounding_mode) as u8,
            "vs": [vb(&f.minimum_integral_digits.to_le_bytes()), vb(&f.maximum_integral_digits.to_le_bytes()),
                   vb(&f.minimum_fractional_digits.to_le_bytes()), vb(&f.maximum_fractional_digits.to_le_bytes())]
        }]),
    }
}
fn arg_in(v: &Value) -> FormatArgumentValue {
    match k(v) {
        "Int" => FormatArgumentValue::Int(i32v(&v["v"])),
        "UInt" => FormatArgumentValue::UInt(u32v(&v["v"])),
        "Int64" => FormatArgumentValue::Int64(u64v(&v["v"]) as i64),
        "UInt64" => FormatArgumentValue::UInt64(u64v(&v["v"])),
        "Float" => FormatArgumentValue::Float(of32(&v["v"])),
        "Double" => FormatArgumentValue::Double(of64(&v["v"])),
        "Text" => FormatArgumentValue::Text(text_in(&v["x"])),
        x => panic!("arg {x}"),
    }
}
fn arg_out(a: &FormatArgumentValue) -> Value {
    match a {
        FormatArgumentValue::Int(x) => json!({"k":"Int","v":vb(&x.to_le_bytes())}),
        FormatArgumentValue::UInt(x) => json!({"k":"UInt","v":vb(&x.to_le_bytes())}),
        FormatArgumentValue::Int64(x) => json!({"k":"Int64","v":vb(&x.to_le_bytes())}),
        FormatArgumentValue::UInt64(x) => json!({"k":"UInt64","v":vb(&x.to_le_bytes())}),
        FormatArgumentValue::Float(x) => json!({"k":"Float","v":vb(&x.0.to_le_bytes())}),
        FormatArgumentValue::Double(x) => json!({"k":"Double","v":vb(&x.0.to_le_bytes())}),
        FormatArgumentValue::Text(x) => json!({"k":"Text","x":text_out(x)}),
    }
}
fn named_in(v: &Value) -> HashableIndexMap<String, FormatArgumentValue> {
    HashableIndexMap(list(v).iter().map(|e| (st(&e[0]), arg_in(&e[1]))).collect())
}
fn named_out(m: &HashableIndexMap<String, FormatArgumentValue>) -> Value {
    m.0.iter().map(|(n, a)| json!([vs(n), arg_out(a)])).collect()
}
pub fn text_in(v: &Value) -> FText {
    FText { flags: u32v(&v["fl"]), history: hist_in(&v["h"]) }
}
pub fn hist_in(h: &Value) -> FTextHistory {
    match k(h) {
        "Empty" => FTextHistory::Empty {},
        "None" => FTextHistory::None { culture_invariant_string: ost(&h["o"]) },
        "Base" => FTextHistory::Base { namespace: ost(&h["ns"]), key: ost(&h["key"]), source_string: ost(&h["src"]) },
        "Named" => FTextHistory::NamedFormat { source_format: Box::new(text_in(&h["x"])), arguments: named_in(&h["nas"]) },
        "Argument" => {
            FTextHistory::ArgumentFormat { source_format: Box::new(text_in(&h["x"])), arguments: named_in(&h["nas"]) }
        }
        "Ordered" => FTextHistory::OrderedFormat {
            source_format: Box::new(text_in(&h["x"])),
            arguments: list(&h["oas"]).iter().map(arg_in).collect(),
        },
        "Number" => FTextHistory::AsNumber {
            source_value: Box::new(arg_in(&h["a"])),
            format_options: fo_in(&h["fo"]),
            target_culture: ost(&h["cu"]),
        },
        "Percent" => FTextHistory::AsPercent {
            source_value: Box::new(arg_in(&h["a"])),
            format_options: fo_in(&h["fo"]),
            target_culture: ost(&h["cu"]),
        },
        "Currency" => FTextHistory::AsCurrency {
            currency_code: ost(&h["code"]),
            source_value: Box::new(arg_in(&h["a"])),
            format_options: fo_in(&h["fo"]),
            target_culture: ost(&h["cu"]),
        },
        "Date" => FTextHistory::AsDate {
            date_time: DateTime { ticks: u64v(&h["v"]) },
            date_style: DateTimeStyle::try_from(i8of(&h["dst"])).unwrap(),
            target_culture: st(&h["cul"]),
        },
        "Time" => FTextHistory::AsTime {
            source_date_time: DateTime { ticks: u64v(&h["v"]) },
            time_style: DateTimeStyle::try_from(i8of(&h["tst"])).unwrap(),
            time_zone: st(&h["tz"]),
            target_culture: st(&h["cul"]),
        },
        "DateTime" => FTextHistory::AsDateTime {
            source_date_time: DateTime { ticks: u64v(&h["v"]) },
            date_style: DateTimeStyle::try_from(i8of(&h["dst"])).unwrap(),
            time_style: DateTimeStyle::try_from(i8of(&h["tst"])).unwrap(),
            time_zone: st(&h["tz"]),
            target_culture: st(&h["cul"]),
        },
        "Transform" => FTextHistory::Transform {
            source_text: Box::new(text_in(&h["x"])),
            transform_type: TransformType::try_from(i8of(&h["tt"])).unwrap(),
        },
        "Table" => FTextHistory::StringTableEntry { table_id: st(&h["id"]), key: st(&h["s"]) },
        x => panic!("history {x}"),
    }
}
pub fn text_out(t: &FText) -> Value {
    json!({"fl": vb(&t.flags.to_le_bytes()), "h": hist_out(&t.history)})
}
pub fn hist_out(h: &FTextHistory) -> Value {
    let tick = |d: &DateTime| vb(&d.ticks.to_le_bytes());
    match h {
        FTextHistory::Empty {} => json!({"k":"Empty"}),
        FTextHistory::None { culture_invariant_string } => json!({"k":"None","o":vos(culture_invariant_string)}),
        FTextHistory::Base { namespace, key, source_string } => {
            json!({"k":"Base","ns":vos(namespace),"key":vos(key),"src":vos(source_string)})
        }
        FTextHistory::NamedFormat { source_format, arguments } => {
            json!({"k":"Named","x":text_out(source_format),"nas":named_out(arguments)})
        }
        FTextHistory::ArgumentFormat { source_format, arguments } => {
            json!({"k":"Argument","x":text_out(source_format),"nas":named_out(arguments)})
        }
        FTextHistory::OrderedFormat { source_format, arguments } => {
            json!({"k":"Ordered","x":text_out(source_format),"oas":arguments.iter().map(arg_out).collect::<Vec<_>>()})
        }
        FTextHistory::AsNumber { source_value, format_options, target_culture } => {
            json!({"k":"Number","a":arg_out(source_value),"fo":fo_out(format_options),"cu":vos(target_culture)})
        }
        FTextHistory::AsPercent { source_value, format_options, target_culture } => {
            json!({"k":"Percent","a":arg_out(source_value),"fo":fo_out(format_options),"cu":vos(target_culture)})
        }
        FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } => json!({"k":"Currency","code":vos(currency_code),"a":arg_out(source_value),"fo":fo_out(format_options),"cu":vos(target_culture)}),
        FTextHistory::AsDate { date_time, date_style, target_culture } => {
            json!({"k":"Date","v":tick(date_time),"dst":i8::from(*date_style),"cul":vs(target_culture)})
        }
        FTextHistory::AsTime { source_date_time, time_style, time_zone, target_culture } => {
            json!({"k":"Time","v":tick(source_date_time),"tst":i8::from(*time_style),"tz":vs(time_zone),"cul":vs(target_culture)})
        }
        FTextHistory::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } => {
            json!({"k":"DateTime","v":tick(source_date_time),"dst":i8::from(*date_style),"tst":i8::from(*time_style),"tz":vs(time_zone),"cul":vs(target_culture)})
        }
        FTextHistory::Transform { source_text, transform_type } => {
            json!({"k":"Transform","x":text_out(source_text),"tt":i8::from(*transform_type)})
        }
        FTextHistory::StringTableEntry { table_id, key } => json!({"k":"Table","id":vs(table_id),"s":vs(key)}),
    }
}

// ---------------------------------------------------------------- structs
pub fn sv_in(v: &Value) -> StructPropertyValue {
    let f = |i: usize| &v["vs"][i];
    match k(v) {
        "VectorF" => StructPropertyValue::VectorF(VectorF { x: of32(f(0)), y: of32(f(1)), z: of32(f(2)) }),
        "VectorD" => StructPropertyValue::VectorD(VectorD { x: of64(f(0)), y: of64(f(1)), z: of64(f(2)) }),
        "Vector2F" => StructPropertyValue::Vector2F(Vector2F { x: of32(f(0)), y: of32(f(1)) }),
        "Vector2D" => StructPropertyValue::Vector2D(Vector2D { x: of64(f(0)), y: of64(f(1)) }),
        "RotatorF" => {
            StructPropertyValue::RotatorF(RotatorF { pitch: of32(f(0)), yaw: of32(f(1)), roll: of32(f(2)) })
        }
        "RotatorD" => {
            StructPropertyValue::RotatorD(RotatorD { pitch: of64(f(0)), yaw: of64(f(1)), roll: of64(f(2)) })
        }
        "QuatF" => {
            StructPropertyValue::QuatF(QuatF { x: of32(f(0)), y: of32(f(1)), z: of32(f(2)), w: of32(f(3)) })
        }
        "QuatD" => {
            StructPropertyValue::QuatD(QuatD { x: of64(f(0)), y: of64(f(1)), z: of64(f(2)), w: of64(f(3)) })
        }
        "DateTime" => StructPropertyValue::DateTime(DateTime { ticks: u64v(f(0)) }),
        "Timespan" => StructPropertyValue::Timespan(Timespan { ticks: u64v(f(0)) }),
        "LinearColor" => {
            StructPropertyValue::LinearColor(LinearColor { r: of32(f(0)), g: of32(f(1)), b: of32(f(2)), a: of32(f(3)) })
        }
        "IntPoint" => StructPropertyValue::IntPoint(IntPoint { x: i32v(f(0)), y: i32v(f(1)) }),
        "Guid" => StructPropertyValue::Guid(guid(f(0))),
        "Tags" => StructPropertyValue::GameplayTagContainer(list(&v["tags"]).iter().map(st).collect()),
        "Custom" => StructPropertyValue::CustomStruct(HashableIndexMap(
            list(&v["fs"]).iter().map(|e| (st(&e[0]), list(&e[1]).iter().map(prop_in).collect())).collect(),
        )),
        x => panic!("struct value {x}"),
    }
}
pub fn sv_out(s: &StructPropertyValue) -> Value {
    fn r(kd: &str, fs: &[&[u8]]) -> Value {
        json!({"k": kd, "vs": fs.iter().map(|b| vb(b)).collect::<Vec<_>>()})
    }
    fn a(x: OrderedFloat<f32>) -> [u8; 4] {
        x.0.to_le_bytes()
    }
    fn b(x: OrderedFloat<f64>) -> [u8; 8] {
        x.0.to_le_bytes()
    }
    match s {
        StructPropertyValue::VectorF(v) => r("VectorF", &[&a(v.x), &a(v.y), &a(v.z)]),
        StructPropertyValue::VectorD(v) => r("VectorD", &[&b(v.x), &b(v.y), &b(v.z)]),
        StructPropertyValue::Vector2F(v) => r("Vector2F", &[&a(v.x), &a(v.y)]),
        StructPropertyValue::Vector2D(v) => r("Vector2D", &[&b(v.x), &b(v.y)]),
        StructPropertyValue::RotatorF(v) => r("RotatorF", &[&a(v.pitch), &a(v.yaw), &a(v.roll)]),
        StructPropertyValue::RotatorD(v) => r("RotatorD", &[&b(v.pitch), &b(v.yaw), &b(v.roll)]),
        StructPropertyValue::QuatF(v) => r("QuatF", &[&a(v.x), &a(v.y), &a(v.z), &a(v.w)]),
        StructPropertyValue::QuatD(v) => r("QuatD", &[&b(v.x), &b(v.y), &b(v.z), &b(v.w)]),
        StructPropertyValue::DateTime(v) => r("DateTime", &[&v.ticks.to_le_bytes()]),
        StructPropertyValue::Timespan(v) => r("Timespan", &[&v.ticks.to_le_bytes()]),
        StructPropertyValue::LinearColor(v) => r("LinearColor", &[&a(v.r), &a(v.g), &a(v.b), &a(v.a)]),
        StructPropertyValue::IntPoint(v) => r("IntPoint", &[&v.x.to_le_bytes(), &v.y.to_le_bytes()]),
        StructPropertyValue::Guid(g) => r("Guid", &[&g.0]),
        StructPropertyValue::GameplayTagContainer(t) => {
            json!({"k":"Tags","tags":t.iter().map(|s| vs(s)).collect::<Vec<_>>()})
        }
        StructPropertyValue::CustomStruct(m) => json!({"k":"Custom","fs": m.0.iter()
            .map(|(n, ps)| json!([vs(n), ps.iter().map(prop_out).collect::<Vec<_>>()])).collect::<Vec<_>>()}),
    }
}

// ---------------------------------------------------------------- properties
fn del_in(v: &Value) -> Delegate {
    Delegate { object: st(&v[0]), function_name: st(&v[1]) }
}
fn del_out(d: &Delegate) -> Value {
    json!([vs(&d.object), vs(&d.function_name)])
}
fn multi_in(v: &Value) -> MulticastScriptDelegate {
    MulticastScriptDelegate { delegates: list(&v["dl"]).iter().map(del_in).collect() }
}
fn multi_out(m: &MulticastScriptDelegate) -> Value {
    m.delegates.iter().map(del_out).collect()
}
fn keyed<V>(kvs: &Value, f: impl Fn(&Value) -> V) -> IndexMap<String, V> {
    list(kvs)
        .iter()
        .map(|e| (if e[0]["k"] == "Enum" { st(&e[0]["s"]) } else { ost(&e[0]["o"]).unwrap() }, f(&e[1])))
        .collect()
}
pub fn prop_in(v: &Value) -> Property {
    match k(v) {
        "Int8" => Int8Property { value: bytes(&v["v"])[0] as i8 }.into(),
        "Int16" => Int16Property { value: u16v(&v["v"]) as i16 }.into(),
        "UInt16" => UInt16Property { value: u16v(&v["v"]) }.into(),
        "Int" => IntProperty { value: i32v(&v["v"]) }.into(),
        "UInt32" => UInt32Property { value: u32v(&v["v"]) }.into(),
        "Int64" => Int64Property { value: u64v(&v["v"]) as i64 }.into(),
        "UInt64" => UInt64Property { value: u64v(&v["v"]) }.into(),
        "Float" => FloatProperty { value: of32(&v["v"]) }.into(),
        "Double" => DoubleProperty { value: of64(&v["v"]) }.into(),
        "Bool" => BoolProperty { value: v["v"][0] == 1 }.into(),
        "Byte" => ByteProperty { name: ost(&v["n"]), value: BytePropertyValue::Byte(bytes(&v["v"])[0]) }.into(),
        "ByteNs" => ByteProperty { name: ost(&v["n"]), value: BytePropertyValue::Namespaced(st(&v["s"])) }.into(),
        "Enum" => EnumProperty { enum_type: ost(&v["t"]), value: st(&v["s"]) }.into(),
        "Str" => StrProperty { value: ost(&v["o"]) }.into(),
        "Name" => NameProperty { array_index: u32v(&v["ai"]), value: ost(&v["o"]) }.into(),
        "Object" => ObjectProperty { value: st(&v["s"]) }.into(),
        "Delegate" => DelegateProperty { value: del_in(&v["d"]) }.into(),
        "MInline" => MulticastInlineDelegateProperty { value: multi_in(v) }.into(),
        "MSparse" => MulticastSparseDelegateProperty { value: multi_in(v) }.into(),
        "FieldPath" => FieldPathProperty {
            value: FieldPath { path: list(&v["path"]).iter().map(st).collect(), resolved_owner: st(&v["s"]) },
        }
        .into(),
        "Text" => TextProperty { value: text_in(&v["x"]) }.into(),
        "Struct" => {
            StructProperty { guid: guid(&v["guid"]), type_name: st(&v["tn"]), value: sv_in(&v["sv"]) }.into()
        }
        "SV" => Property::StructPropertyValue(sv_in(&v["sv"])),
        "Array" => {
            let es = list(&v["es"]);
            match v["w"].as_str().unwrap() {
                "Bools" => ArrayProperty::Bools { bools: es.iter().map(|e| e["v"][0] == 1).collect() },
                "Bytes" => ArrayProperty::Bytes { bytes: es.iter().map(|e| bytes(&e["v"])[0]).collect() },
                "Enums" => ArrayProperty::Enums { enums: es.iter().map(|e| st(&e["s"])).collect() },
                "Floats" => ArrayProperty::Floats { floats: es.iter().map(|e| of32(&e["v"])).collect() },
                "Ints" => ArrayProperty::Ints { ints: es.iter().map(|e| i32v(&e["v"])).collect() },
                "Names" => ArrayProperty::Names { names: es.iter().map(|e| ost(&e["o"])).collect() },
                "Strings" => ArrayProperty::Strings { strings: es.iter().map(|e| ost(&e["o"])).collect() },
                "Structs" => ArrayProperty::Structs {
                    field_name: st(&v["f"][0][0]),
                    type_name: st(&v["f"][0][1]),
                    guid: guid(&v["f"][0][2]),
                    structs: es.iter().map(|e| sv_in(&e["sv"])).collect(),
                },
                "Properties" => ArrayProperty::Properties {
                    property_type: st(&v["et"]),
                    properties: es.iter().map(prop_in).collect(),
                },
                x => panic!("form {x}"),
            }
            .into()
        }
        "Set" => SetProperty {
            property_type: st(&v["et"]),
            allocation_flags: u32v(&v["af"]),
            properties: list(&v["es"]).iter().map(prop_in).collect(),
        }
        .into(),
        "Map" => {
            let m = &v["kvs"];
            let bo = |x: &Value| x["v"][0] == 1;
            let io = |x: &Value| i32v(&x["v"]);
            match v["w"].as_str().unwrap() {
                "EnumBool" => MapProperty::EnumBool { enum_bools: HashableIndexMap(keyed(m, bo)) },
                "EnumInt" => MapProperty::EnumInt { enum_ints: HashableIndexMap(keyed(m, io)) },
                "EnumProperty" => MapProperty::EnumProperty {
                    value_type: st(&v["vt"]),
                    enum_props: HashableIndexMap(keyed(m, prop_in)),
                },
                "NameBool" => MapProperty::NameBool { name_bools: HashableIndexMap(keyed(m, bo)) },
                "NameInt" => MapProperty::NameInt { name_ints: HashableIndexMap(keyed(m, io)) },
                "NameProperty" => MapProperty::NameProperty {
                    value_type: st(&v["vt"]),
                    name_props: HashableIndexMap(keyed(m, prop_in)),
                },
                "StrBool" => MapProperty::StrBool { str_bools: HashableIndexMap(keyed(m, bo)) },
                "StrInt" => MapProperty::StrInt { str_ints: HashableIndexMap(keyed(m, io)) },
                "StrProperty" => MapProperty::StrProperty {
                    value_type: st(&v["vt"]),
                    str_props: HashableIndexMap(keyed(m, prop_in)),
                },
                "StrStr" => MapProperty::StrStr { str_strs: HashableIndexMap(keyed(m, |x| ost(&x["o"]))) },
                "Properties" => MapProperty::Properties {
                    key_type: st(&v["kt"]),
                    value_type: st(&v["vt"]),
                    allocation_flags: u32v(&v["af"]),
                    value: kvs_in(m),
                },
                x => panic!("form {x}"),
            }
            .into()
        }
        "Unknown" => UnknownProperty::new(st(&v["ty"]), bytes(&v["raw"])).into(),
        x => panic!("property {x}"),
    }
}
pub fn kvs_in(m: &Value) -> HashableIndexMap<Property, Property> {
    HashableIndexMap(list(m).iter().map(|e| (prop_in(&e[0]), prop_in(&e[1]))).collect())
}

fn array_out(w: &str, et: &str, es: Vec<Value>) -> Value {
    json!({"k":"Array","w":w,"et":vs(et),"f":[],"es":es})
}
fn map_out<'a, V: 'a>(
    w: &str,
    key: &str,
    kt: &str,
    vt: &str,
    m: impl Iterator<Item = (&'a String, &'a V)>,
    f: impl Fn(&V) -> Value,
) -> Value {
    let kf = |s: &String| match key {
        "Enum" => json!({"k":"Enum","t":[],"s":vs(s)}),
        "Name" => json!({"k":"Name","ai":[0,0,0,0],"o":[vs(s)]}),
        _ => json!({"k":"Str","o":[vs(s)]}),
    };
    json!({"k":"Map","w":w,"kt":vs(kt),"vt":vs(vt),"af":[0,0,0,0],
           "kvs": m.map(|(a, b)| json!([kf(a), f(b)])).collect::<Vec<_>>()})
}
fn num(kd: &str, b: &[u8]) -> Value {
    json!({"k":kd,"v":vb(b)})
}
pub fn prop_out(p: &Property) -> Value {
    let bo = |x: &bool| num("Bool", &[*x as u8]);
    let io = |x: &i32| num("Int", &x.to_le_bytes());
    match p {
        Property::Int8Property(x) => num("Int8", &x.value.to_le_bytes()),
        Property::Int16Property(x) => num("Int16", &x.value.to_le_bytes()),
        Property::UInt16Property(x) => num("UInt16", &x.value.to_le_bytes()),
        Property::IntProperty(x) => num("Int", &x.value.to_le_bytes()),
        Property::UInt32Property(x) => num("UInt32", &x.value.to_le_bytes()),
        Property::Int64Property(x) => num("Int64", &x.value.to_le_bytes()),
        Property::UInt64Property(x) => num("UInt64", &x.value.to_le_bytes()),
        Property::FloatProperty(x) => num("Float", &x.value.0.to_le_bytes()),
        Property::DoubleProperty(x) => num("Double", &x.value.0.to_le_bytes()),
        Property::BoolProperty(x) => bo(&x.value),
        Property::ByteProperty(x) => match &x.value {
            BytePropertyValue::Byte(b) => json!({"k":"Byte","n":vos(&x.name),"v":[*b]}),
            BytePropertyValue::Namespaced(s) => json!({"k":"ByteNs","n":vos(&x.name),"s":vs(s)}),
        },
        Property::EnumProperty(x) => json!({"k":"Enum","t":vos(&x.enum_type),"s":vs(&x.value)}),
        Property::StrProperty(x) => json!({"k":"Str","o":vos(&x.value)}),
        Property::NameProperty(x) => json!({"k":"Name","ai":vb(&x.array_index.to_le_bytes()),"o":vos(&x.value)}),
        Property::ObjectProperty(x) => json!({"k":"Object","s":vs(&x.value)}),
        Property::DelegateProperty(x) => json!({"k":"Delegate","d":del_out(&x.value)}),
        Property::MulticastInlineDelegateProperty(x) => json!({"k":"MInline","dl":multi_out(&x.value)}),
        Property::MulticastSparseDelegateProperty(x) => json!({"k":"MSparse","dl":multi_out(&x.value)}),
        Property::FieldPathProperty(x) => {
            json!({"k":"FieldPath","path":x.value.path.iter().map(|s| vs(s)).collect::<Vec<_>>(),"s":vs(&x.value.resolved_owner)})
        }
        Property::TextProperty(x) => json!({"k":"Text","x":text_out(&x.value)}),
        Property::StructProperty(x) => {
            json!({"k":"Struct","guid":vb(&x.guid.0),"tn":vs(&x.type_name),"sv":sv_out(&x.value)})
        }
        Property::StructPropertyValue(x) => json!({"k":"SV","sv":sv_out(x)}),
        Property::ArrayProperty(a) => match a {
            ArrayProperty::Bools { bools } => array_out("Bools", "BoolProperty", bools.iter().map(bo).collect()),
            ArrayProperty::Bytes { bytes } => array_out(
                "Bytes",
                "ByteProperty",
                bytes.iter().map(|b| json!({"k":"Byte","n":[],"v":[*b]})).collect(),
            ),
            ArrayProperty::Enums { enums } => array_out(
                "Enums",
                "EnumProperty",
                enums.iter().map(|s| json!({"k":"Enum","t":[],"s":vs(s)})).collect(),
            ),
            ArrayProperty::Floats { floats } => array_out(
                "Floats",
                "FloatProperty",
                floats.iter().map(|f| num("Float", &f.0.to_le_bytes())).collect(),
            ),
            ArrayProperty::Ints { ints } => array_out("Ints", "IntProperty", ints.iter().map(io).collect()),
            ArrayProperty::Names { names } => array_out(
                "Names",
                "NameProperty",
                names.iter().map(|s| json!({"k":"Name","ai":[0,0,0,0],"o":vos(s)})).collect(),
            ),
            ArrayProperty::Strings { strings } => array_out(
                "Strings",
                "StrProperty",
                strings.iter().map(|s| json!({"k":"Str","o":vos(s)})).collect(),
            ),
            ArrayProperty::Structs { field_name, type_name, guid, structs } => json!({"k":"Array","w":"Structs",
                "et":vs("StructProperty"),"f":[[vs(field_name),vs(type_name),vb(&guid.0)]],
                "es":structs.iter().map(|s| json!({"k":"SV","sv":sv_out(s)})).collect::<Vec<_>>()}),
            ArrayProperty::Properties { property_type, properties } => {
                array_out("Properties", property_type, properties.iter().map(prop_out).collect())
            }
        },
        Property::SetProperty(x) => json!({"k":"Set","et":vs(&x.property_type),"af":vb(&x.allocation_flags.to_le_bytes()),
            "es":x.properties.iter().map(prop_out).collect::<Vec<_>>()}),
        Property::MapProperty(m) => {
            const E: &str = "EnumProperty";
            const N: &str = "NameProperty";
            const S: &str = "StrProperty";
            const B: &str = "BoolProperty";
            const I: &str = "IntProperty";
            match m {
                MapProperty::EnumBool { enum_bools: m } => map_out("EnumBool", "Enum", E, B, m.0.iter(), bo),
                MapProperty::EnumInt { enum_ints: m } => map_out("EnumInt", "Enum", E, I, m.0.iter(), io),
                MapProperty::EnumProperty { value_type, enum_props: m } => {
                    map_out("EnumProperty", "Enum", E, value_type, m.0.iter(), prop_out)
                }
                MapProperty::NameBool { name_bools: m } => map_out("NameBool", "Name", N, B, m.0.iter(), bo),
                MapProperty::NameInt { name_ints: m } => map_out("NameInt", "Name", N, I, m.0.iter(), io),
                MapProperty::NameProperty { value_type, name_props: m } => {
                    map_out("NameProperty", "Name", N, value_type, m.0.iter(), prop_out)
                }
                MapProperty::StrBool { str_bools: m } => map_out("StrBool", "Str", S, B, m.0.iter(), bo),
                MapProperty::StrInt { str_ints: m } => map_out("StrInt", "Str", S, I, m.0.iter(), io),
                MapProperty::StrProperty { value_type, str_props: m } => {
                    map_out("StrProperty", "Str", S, value_type, m.0.iter(), prop_out)
                }
                MapProperty::StrStr { str_strs: m } => {
                    map_out("StrStr", "Str", S, S, m.0.iter(), |s| json!({"k":"Str","o":vos(s)}))
                }
                MapProperty::Properties { key_type, value_type, allocation_flags, value } => json!({"k":"Map","w":"Properties",
                    "kt":vs(key_type),"vt":vs(value_type),"af":vb(&allocation_flags.to_le_bytes()),
                    "kvs":value.0.iter().map(|(a, b)| json!([prop_out(a), prop_out(b)])).collect::<Vec<_>>()}),
            }
        }
        Property::UnknownProperty(u) => {
            // no public accessors: its fields are observable through serde
            let j = serde_json::to_value(u).unwrap();
            json!({"k":"Unknown","ty":vs(j["property_name"].as_str().unwrap_or("?")),
                   "raw": j["raw"].as_array().cloned().unwrap_or_default()})
        }
    }
}

// ---------------------------------------------------------------- header, file
pub fn cvs_in(v: &Value) -> HashableIndexMap<Guid, u32> {
    HashableIndexMap(list(v).iter().map(|e| (guid(&e[0]), u32v(&e[1]))).collect())
}
pub fn cvs_out(m: &HashableIndexMap<Guid, u32>) -> Value {
    m.0.iter().map(|(g, v)| json!([vb(&g.0), vb(&v.to_le_bytes())])).collect()
}
pub fn header_in(h: &Value) -> GvasHeader {
    let engine_version =
        FEngineVersion::new(u16v(&h["maj"]), u16v(&h["min"]), u16v(&h["pat"]), u32v(&h["cl"]), st(&h["br"]));
    let package_file_version = u32v(&h["pkg"]);
    let custom_version_format = u32v(&h["cvf"]);
    let custom_versions = cvs_in(&h["cvs"]);
    let save_game_class_name = st(&h["cls"]);
    if h["ver"] == 2 {
        GvasHeader::Version2 {
            package_file_version,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        }
    } else {
        GvasHeader::Version3 {
            package_file_version,
            package_file_version_ue5: u32v(&h["ue5"]),
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        }
    }
}
pub fn header_out(h: &GvasHeader) -> Value {
    let f = |ver: u8, pkg: &u32, ue5: Value, e: &FEngineVersion, cvf: &u32, cvs: &HashableIndexMap<Guid, u32>, cls: &str| {
        json!({"ver":ver,"pkg":vb(&pkg.to_le_bytes()),"ue5":ue5,"maj":vb(&e.major.to_le_bytes()),
               "min":vb(&e.minor.to_le_bytes()),"pat":vb(&e.patch.to_le_bytes()),"cl":vb(&e.change_list.to_le_bytes()),
               "br":vs(&e.branch),"cvf":vb(&cvf.to_le_bytes()),"cvs":cvs_out(cvs),"cls":vs(cls)})
    };
    match h {
        GvasHeader::Version2 {
            package_file_version,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        } => f(2, package_file_version, json!([]), engine_version, custom_version_format, custom_versions, save_game_class_name),
        GvasHeader::Version3 {
            package_file_version,
            package_file_version_ue5,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        } => f(
            3,
            package_file_version,
            vb(&package_file_version_ue5.to_le_bytes()),
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        ),
    }
}
pub fn gv_in(v: &Value) -> DeserializedGameVersion {
    match v.as_str().unwrap() {
        "Default" => DeserializedGameVersion::Default,
        "None" => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
        "Zlib" => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
        "ZlibTwice" => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
        x => panic!("gv {x}"),
    }
}
pub fn gv_out(g: DeserializedGameVersion) -> &'static str {
    match g {
        DeserializedGameVersion::Default => "Default",
        DeserializedGameVersion::Palworld(PalworldCompressionType::None) => "None",
        DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib) => "Zlib",
        DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice) => "ZlibTwice",
    }
}
pub fn file_in(v: &Value) -> GvasFile {
    GvasFile {
        deserialized_game_version: gv_in(&v["gv"]),
        header: header_in(&v["hdr"]),
        properties: HashableIndexMap(list(&v["ps"]).iter().map(|e| (st(&e[0]), prop_in(&e[1]))).collect()),
    }
}
pub fn file_out(f: &GvasFile) -> Value {
    json!({"gv": gv_out(f.deserialized_game_version), "hdr": header_out(&f.header),
           "ps": f.properties.0.iter().map(|(n, p)| json!([vs(n), prop_out(p)])).collect::<Vec<_>>()})
}

// ---------------------------------------------------------------- errors
fn e(kd: &str, n: Vec<Value>, p: u64, s: Value) -> Value {
    json!({"k":kd,"n":n,"p":p,"s":s})
}
/// the message of an error mentions its values and its position
fn mentioned(x: &Error) -> bool {
    let Error::Deserialize(d) = x else { return true };
    let text = x.to_string();
    let has = |v: &dyn std::fmt::Display| text.contains(&v.to_string());
    let at = |p: u64| text.contains(&format!("{p:#x}")) || text.contains(&format!("{p:#X}")) || has(&p);
    match d {
        DeserializeError::InvalidHeader(m) => has(m),
        DeserializeError::InvalidValueSize(a, b, p) => has(a) && has(b) && at(*p),
        DeserializeError::InvalidString(n, p) => has(n) && at(*p),
        DeserializeError::InvalidStringTerminator(n, p) => has(n) && at(*p),
        DeserializeError::InvalidBoolean(n, p) => has(n) && at(*p),
        DeserializeError::MissingHint(n, path, p) => has(n) && has(path) && at(*p),
        DeserializeError::MissingArgument(n, p) | DeserializeError::InvalidProperty(n, p) => has(n) && at(*p),
        DeserializeError::InvalidEnumValue(n, v, p) => has(n) && has(v) && at(*p),
        DeserializeError::InvalidArrayIndex(n, p) => has(n) && at(*p),
        DeserializeError::InvalidTerminator(n, p) => has(n) && at(*p),
        DeserializeError::FromUtf16Error(_, p) | DeserializeError::FromUtf8Error(_, p) => at(*p),
    }
}
pub fn err_out(x: &Error) -> Value {
    let mut v = err_fields(x);
    if !mentioned(x) {
        v["k"] = json!(format!("{} with the message {x}", v["k"].as_str().unwrap()));
    }
    v
}
fn err_fields(x: &Error) -> Value {
    let none = || json!([]);
    match x {
        Error::Io(_) => e("Io", vec![], 0, none()),
        Error::Serialize(_) => e("Serialize", vec![], 0, none()),
        Error::Deserialize(d) => match d {
            DeserializeError::InvalidHeader(_) => e("InvalidHeader", vec![], 0, none()),
            DeserializeError::InvalidValueSize(a, b, p) => {
                e("InvalidValueSize", vec![vb(&a.to_le_bytes()), vb(&b.to_le_bytes())], *p, none())
            }
            DeserializeError::InvalidString(n, p) => e("InvalidString", vec![vb(&n.to_le_bytes())], *p, none()),
            DeserializeError::InvalidStringTerminator(n, p) => {
                e("InvalidStringTerminator", vec![vb(&n.to_le_bytes())], *p, none())
            }
            DeserializeError::InvalidBoolean(n, p) => e("InvalidBoolean", vec![vb(&n.to_le_bytes())], *p, none()),
            DeserializeError::MissingHint(_, path, p) => e("MissingHint", vec![], *p, vs(path)),
            DeserializeError::MissingArgument(_, p) => e("MissingArgument", vec![], *p, none()),
            DeserializeError::InvalidProperty(_, p) => e("InvalidProperty", vec![], *p, none()),
            DeserializeError::InvalidEnumValue(_, n, p) => e("InvalidEnumValue", vec![vb(&n.to_le_bytes())], *p, none()),
            DeserializeError::InvalidArrayIndex(n, p) => e("InvalidArrayIndex", vec![vb(&n.to_le_bytes())], *p, none()),
            DeserializeError::InvalidTerminator(n, p) => e("InvalidTerminator", vec![vb(&n.to_le_bytes())], *p, none()),
            DeserializeError::FromUtf16Error(_, p) => e("FromUtf16Error", vec![], *p, none()),
            DeserializeError::FromUtf8Error(_, p) => e("FromUtf8Error", vec![], *p, none()),
        },
    }
}
