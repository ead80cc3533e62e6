//! Random values of the specification's value domain, for recorded sessions.
use crate::conv::{vb, vs};
use serde_json::{Value, json};

pub struct R(pub u64);
impl R {
    pub fn new(seed: u64, kind: &str, i: u64) -> R {
        let mut h = 0xcbf29ce484222325u64;
        for b in kind.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = R(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len())]
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub lwc: bool,
    pub t64: bool,
    pub civ: bool,
    pub finite: bool,
    /// long strings are likely
    pub strings: bool,
    /// the struct type of all elements and entries that carry no type of their own
    pub ust: &'static str,
    /// unknown types are likely
    pub unk: bool,
    /// how deep values may nest
    pub depth: usize,
}

pub fn string(r: &mut R, c: &Ctx, name: bool) -> Value {
    let s: String = match r.below(if c.strings { 12 } else { 24 }) {
        0 => String::new(),
        1 => r
            .pick(&["None", "A\0B", "\0", "a.b", " x ", "\u{feff}x", "\u{fffd}", "0", "true", "null", "\"\\", "IntProperty", "Key", "Value"])
            .to_string(),
        2 => (0..1 + r.below(8)).map(|_| char::from_u32(0x80 + r.below(0xd000) as u32).unwrap()).collect(),
        3 => {
            let n = if c.strings { r.below(3000) } else { 100 + r.below(300) };
            (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect()
        }
        4 => (0..1 + r.below(4)).map(|_| char::from_u32(0x10000 + r.below(0xfffff) as u32).unwrap()).collect(),
        5 => (0..1 + r.below(4)).map(|_| char::from_u32(0x7e + r.below(4) as u32).unwrap()).collect(),
        6 if c.strings => (0..r.below(700)).map(|_| char::from_u32(0x400 + r.below(100) as u32).unwrap()).collect(),
        7 if c.strings => (0..r.below(20)).map(|_| r.pick(&['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10ffff}', '\u{10000}', '\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}'])).collect(),
        _ => (0..1 + r.below(10)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    };
    if name && s == "None" { vs("NoneX") } else { vs(&s) }
}
fn ostring(r: &mut R, c: &Ctx) -> Value {
    if r.chance(1, 6) { json!([]) } else { json!([string(r, c, false)]) }
}
pub fn num(r: &mut R, w: usize) -> Value {
    let mut b: Vec<u8> = (0..w).map(|_| r.next() as u8).collect();
    match r.below(6) {
        0 => b = vec![0; w],
        1 => b = vec![255; w],
        2 => {
            b = vec![0; w];
            b[w - 1] = 0x80;
        }
        3 => {
            for x in b.iter_mut().skip(1) {
                *x = 0;
            }
        }
        _ => {}
    }
    vb(&b)
}
fn float(r: &mut R, c: &Ctx, w: usize) -> Value {
    loop {
        let v = num(r, w);
        let b = crate::conv::bytes(&v);
        let fin = if w == 4 { f32::from_le_bytes(b.try_into().unwrap()).is_finite() } else { f64::from_le_bytes(b.try_into().unwrap()).is_finite() };
        if fin || !c.finite {
            return v;
        }
    }
}
fn guid(r: &mut R) -> Value {
    if r.chance(1, 3) { vb(&[0; 16]) } else { num(r, 16) }
}
fn small(r: &mut R) -> Value {
    if r.chance(2, 3) { vb(&[0; 4]) } else { num(r, 4) }
}
fn tags(r: &mut R, c: &Ctx) -> Value {
    Value::Array((0..r.below(4)).map(|_| string(r, c, false)).collect())
}
fn arg(r: &mut R, c: &Ctx, d: usize) -> Value {
    match r.below(5) {
        0 => json!({"k": if c.t64 { "Int64" } else { "Int" }, "v": num(r, if c.t64 { 8 } else { 4 })}),
        1 => json!({"k": if c.t64 { "UInt64" } else { "UInt" }, "v": num(r, if c.t64 { 8 } else { 4 })}),
        2 => json!({"k": "Float", "v": float(r, c, 4)}),
        3 => json!({"k": "Double", "v": float(r, c, 8)}),
        _ => json!({"k": "Text", "x": text(r, c, d + 1)}),
    }
}
fn fo(r: &mut R) -> Value {
    if r.chance(1, 2) {
        return json!([]);
    }
    json!([{"sg": r.below(2), "gr": r.below(2), "rm": r.below(7), "vs": [num(r, 4), num(r, 4), num(r, 4), num(r, 4)]}])
}
pub fn text(r: &mut R, c: &Ctx, d: usize) -> Value {
    let deep = d < 3;
    let h = loop {
        break match r.below(14) {
            0 => json!({"k": "Empty"}),
            1 if c.civ => json!({"k": "None", "o": ostring(r, c)}),
            2 => json!({"k": "Base", "ns": ostring(r, c), "key": ostring(r, c), "src": ostring(r, c)}),
            3 | 4 if deep => {
                let k = r.pick(&["Named", "Argument"]);
                let mut nas: Vec<Value> = vec![];
                for _ in 0..r.below(4) {
                    let n = string(r, c, false);
                    if !nas.iter().any(|x| x[0] == n) {
                        nas.push(json!([n, arg(r, c, d)]));
                    }
                }
                json!({"k": k, "x": text(r, c, d + 1), "nas": nas})
            }
            5 if deep => json!({"k": "Ordered", "x": text(r, c, d + 1), "oas": (0..r.below(4)).map(|_| arg(r, c, d)).collect::<Vec<_>>()}),
            6 if deep => json!({"k": r.pick(&["Number", "Percent"]), "a": arg(r, c, d), "fo": fo(r), "cu": ostring(r, c)}),
            7 if deep => json!({"k": "Currency", "code": ostring(r, c), "a": arg(r, c, d), "fo": fo(r), "cu": ostring(r, c)}),
            8 => json!({"k": "Date", "v": num(r, 8), "dst": r.below(5), "cul": string(r, c, false)}),
            9 => json!({"k": "Time", "v": num(r, 8), "tst": r.below(5), "tz": string(r, c, false), "cul": string(r, c, false)}),
            10 => json!({"k": "DateTime", "v": num(r, 8), "dst": r.below(5), "tst": r.below(5), "tz": string(r, c, false), "cul": string(r, c, false)}),
            11 if deep => json!({"k": "Transform", "x": text(r, c, d + 1), "tt": r.below(2)}),
            12 => json!({"k": "Table", "id": string(r, c, false), "s": string(r, c, false)}),
            _ => continue,
        };
    };
    json!({"fl": small(r), "h": h})
}
pub const STRUCTS: [&str; 11] =
    ["Custom", "Custom", "Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint", "Guid"];
pub fn sv(r: &mut R, c: &Ctx, ty: &str, d: usize) -> Value {
    let mut geom = |n: usize, f: &str, db: &str| {
        let w = if c.lwc { 8 } else { 4 };
        json!({"k": if c.lwc { db } else { f }, "vs": (0..n).map(|_| float(r, c, w)).collect::<Vec<_>>()})
    };
    match ty {
        "Vector" => geom(3, "VectorF", "VectorD"),
        "Vector2D" => geom(2, "Vector2F", "Vector2D"),
        "Rotator" => geom(3, "RotatorF", "RotatorD"),
        "Quat" => geom(4, "QuatF", "QuatD"),
        "DateTime" | "Timespan" => json!({"k": ty, "vs": [num(r, 8)]}),
        "LinearColor" => json!({"k": ty, "vs": (0..4).map(|_| float(r, c, 4)).collect::<Vec<_>>()}),
        "IntPoint" => json!({"k": ty, "vs": [num(r, 4), num(r, 4)]}),
        "Guid" => json!({"k": ty, "vs": [guid(r)]}),
        "GameplayTagContainer" => json!({"k": "Tags", "tags": tags(r, c)}),
        _ => {
            let mut fs: Vec<Value> = vec![];
            for _ in 0..r.below(4) {
                let n = string(r, c, true);
                if !fs.iter().any(|x| x[0] == n) {
                    let k = if r.chance(1, 5) { 2 } else { 1 };
                    fs.push(json!([n, (0..k).map(|_| prop(r, c, d + 1)).collect::<Vec<_>>()]));
                }
            }
            json!({"k": "Custom", "fs": fs})
        }
    }
}
fn type_name(r: &mut R, ty: &str) -> Value {
    if ty == "Custom" { vs(r.pick(&["Cust", "MyStruct", "vector", "Box", "\u{65e5}", ""])) } else { vs(ty) }
}
pub const SCALARS: [(&str, usize); 7] =
    [("Int8", 1), ("Int16", 2), ("UInt16", 2), ("Int", 4), ("UInt32", 4), ("Int64", 8), ("UInt64", 8)];
pub const LEAVES: [&str; 20] = [
    "Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double", "Bool", "Byte", "ByteNs", "Enum", "Str", "Name", "Object",
    "Delegate", "MInline", "FieldPath", "Text",
];
pub fn type_of(k: &str) -> String {
    match k {
        "ByteNs" => "ByteProperty".into(),
        "MInline" => "MulticastInlineDelegateProperty".into(),
        "MSparse" => "MulticastSparseDelegateProperty".into(),
        k => format!("{k}Property"),
    }
}
/// a leaf, with (tagged) or without the parts that only its tag holds
pub fn leaf(r: &mut R, c: &Ctx, k: &str, tagged: bool, d: usize) -> Value {
    if let Some((_, w)) = SCALARS.iter().find(|x| x.0 == k) {
        return json!({"k": k, "v": num(r, *w)});
    }
    let n = |r: &mut R| if tagged { json!([string(r, c, false)]) } else { json!([]) };
    match k {
        "Float" => json!({"k": k, "v": float(r, c, 4)}),
        "Double" => json!({"k": k, "v": float(r, c, 8)}),
        "Bool" => json!({"k": k, "v": [r.below(2)]}),
        "Byte" => json!({"k": k, "n": n(r), "v": num(r, 1)}),
        "ByteNs" => json!({"k": k, "n": n(r), "s": loop { let s = string(r, c, false); if s.as_array().unwrap().len() > 1 { break s } }}),
        "Enum" => json!({"k": k, "t": n(r), "s": string(r, c, false)}),
        "Str" => json!({"k": k, "o": ostring(r, c)}),
        "Name" => json!({"k": k, "ai": if tagged { small(r) } else { vb(&[0; 4]) }, "o": ostring(r, c)}),
        "Object" => json!({"k": k, "s": string(r, c, false)}),
        "Delegate" => json!({"k": k, "d": [string(r, c, false), string(r, c, false)]}),
        "MInline" | "MSparse" => {
            json!({"k": k, "dl": (0..r.below(3)).map(|_| json!([string(r, c, false), string(r, c, false)])).collect::<Vec<_>>()})
        }
        "FieldPath" => json!({"k": k, "path": tags(r, c), "s": string(r, c, false)}),
        "Text" => json!({"k": k, "x": text(r, c, d)}),
        _ => panic!("leaf {k}"),
    }
}
pub fn element(r: &mut R, c: &Ctx, k: &str, raw: usize, d: usize) -> Value {
    match k {
        "Struct" => json!({"k": "SV", "sv": sv(r, c, c.ust, d)}),
        "Unknown" => json!({"k": k, "ty": vs("OddProperty"), "raw": (0..raw).map(|_| r.below(256)).collect::<Vec<_>>()}),
        k => leaf(r, c, k, false, d),
    }
}
fn array_form(k: &str) -> &'static str {
    match k {
        "Bool" => "Bools",
        "Byte" => "Bytes",
        "Enum" => "Enums",
        "Int" => "Ints",
        "Float" => "Floats",
        "Name" => "Names",
        "Str" => "Strings",
        _ => "Properties",
    }
}
pub fn map_form(kt: &str, vt: &str, af: &Value, kvs: &[Value]) -> String {
    let named = kvs.iter().all(|e| kt == "Enum" || e[0]["o"] != json!([]));
    if ["Enum", "Name", "Str"].contains(&kt) && *af == vb(&[0; 4]) && named {
        let post = match vt {
            "Bool" => "Bool",
            "Int" => "Int",
            "Str" if kt == "Str" => "Str",
            _ => "Property",
        };
        format!("{kt}{post}")
    } else {
        "Properties".into()
    }
}
pub const KEYS: [&str; 13] =
    ["Int", "Str", "Name", "Enum", "Byte", "Int64", "Object", "Bool", "UInt16", "Struct", "Delegate", "Int8", "FieldPath"];
pub fn prop(r: &mut R, c: &Ctx, d: usize) -> Value {
    let n = if d > c.depth { 12 } else { 20 };
    let unk = if c.unk { 2 } else { 12 };
    let pick = if c.unk && r.chance(1, 3) { 11 } else { r.below(n) };
    match pick {
        0..=9 => {
            let k = r.pick(&LEAVES);
            leaf(r, c, k, true, d)
        }
        10 => leaf(r, c, "MSparse", true, d),
        11 => json!({"k": "Unknown", "ty": vs(r.pick(&["OddProperty", "\u{e9}", "", "Intproperty"])), "raw": (0..r.below(30)).map(|_| r.below(256)).collect::<Vec<_>>()}),
        12..=14 => {
            let ty = if r.chance(1, 8) { "GameplayTagContainer" } else { r.pick(&STRUCTS) };
            json!({"k": "Struct", "guid": guid(r), "tn": type_name(r, ty), "sv": sv(r, c, ty, d)})
        }
        15 | 16 => {
            if r.chance(1, 3) {
                let ty = r.pick(&STRUCTS);
                let es: Vec<Value> = (0..r.below(4)).map(|_| json!({"k": "SV", "sv": sv(r, c, ty, d)})).collect();
                json!({"k": "Array", "w": "Structs", "et": vs("StructProperty"), "f": [[string(r, c, false), type_name(r, ty), guid(r)]], "es": es})
            } else {
                let k = if r.chance(1, unk) { "Unknown" } else { r.pick(&LEAVES) };
                let raw = 1 + r.below(9);
                let mut m = r.below(6);
                if r.chance(1, 30) {
                    m = 100 + r.below(300);
                }
                let es: Vec<Value> = (0..m).map(|_| element(r, c, k, raw, d)).collect();
                let ty = if k == "Unknown" { "OddProperty".into() } else { type_of(k) };
                let form = if k == "ByteNs" && es.is_empty() { "Bytes" } else { array_form(k) };
                json!({"k": "Array", "w": form, "et": vs(&ty), "f": [], "es": es})
            }
        }
        17 => {
            let k = if r.chance(1, unk) { "Unknown" } else if r.chance(1, 4) { "Struct" } else { r.pick(&LEAVES) };
            let raw = 1 + r.below(9);
            let es: Vec<Value> = (0..r.below(5)).map(|_| element(r, c, k, raw, d)).collect();
            let ty = if k == "Unknown" { "OddProperty".into() } else { type_of(k) };
            json!({"k": "Set", "et": vs(&ty), "af": small(r), "es": es})
        }
        _ => {
            let kt = r.pick(&KEYS);
            let vt = if r.chance(1, 4) {
                "Struct"
            } else {
                loop {
                    let k = r.pick(&LEAVES);
                    if k != "ByteNs" {
                        break k;
                    }
                }
            };
            let mut kvs: Vec<Value> = vec![];
            for _ in 0..r.below(6) {
                let key = element(r, c, kt, 0, d);
                let same = |x: &Value| crate::conv::prop_in(&x[0]) == crate::conv::prop_in(&key);
                if !kvs.iter().any(same) {
                    kvs.push(json!([key, element(r, c, vt, 0, d)]));
                }
            }
            let af = small(r);
            json!({"k": "Map", "w": map_form(kt, vt, &af, &kvs), "kt": vs(&type_of(kt)), "vt": vs(&type_of(vt)), "af": af, "kvs": kvs})
        }
    }
}

const UE5_RELEASE: [u8; 16] = [66, 94, 155, 216, 70, 77, 189, 36, 168, 172, 18, 132, 121, 23, 100, 223];
const EDITOR: [u8; 16] = [237, 104, 176, 228, 233, 66, 148, 244, 11, 218, 49, 162, 65, 187, 70, 46];
fn version(r: &mut R) -> u32 {
    match r.below(4) {
        0 => r.pick(&[11, 12, 13, 27, 28, 29, 31, 32, 33]),
        1 => r.below(60) as u32,
        2 => r.pick(&[0, 1, u32::MAX, 0x8000_0000, 256, 0x0c00_0000]),
        _ => r.next() as u32,
    }
}
pub fn header(r: &mut R, strings: bool, finite: bool) -> (Value, Ctx) {
    let mut c = Ctx { lwc: false, t64: false, civ: false, finite, strings, ust: r.pick(&STRUCTS), unk: false, depth: if r.chance(1, 6) { 6 } else { 3 } };
    let mut cvs: Vec<Value> = vec![];
    for _ in 0..r.below(5) {
        let g = match r.below(4) {
            0 => vb(&UE5_RELEASE),
            1 => vb(&EDITOR),
            _ => guid(r),
        };
        if !cvs.iter().any(|x| x[0] == g) {
            let v = version(r);
            if g == vb(&UE5_RELEASE) {
                c.t64 = v >= 12;
                c.lwc = v >= 28;
            } else if g == vb(&EDITOR) {
                c.civ = v >= 32;
            }
            cvs.push(json!([g, vb(&v.to_le_bytes())]));
        }
    }
    let v3 = r.chance(1, 2);
    let ue5: u32 = 1000 + r.below(10) as u32;
    let pkg: u32 = 517 + r.below(9) as u32;
    let h = json!({"ver": if v3 { 3 } else { 2 }, "pkg": vb(&pkg.to_le_bytes()), "ue5": if v3 { vb(&ue5.to_le_bytes()) } else { json!([]) },
        "maj": num(r, 2), "min": num(r, 2), "pat": num(r, 2), "cl": num(r, 4), "br": string(r, &c, false), "cvf": [3, 0, 0, 0],
        "cvs": cvs, "cls": string(r, &c, false)});
    (h, c)
}
pub fn file(r: &mut R, h: Value, c: &Ctx, gv: &str, n: usize) -> Value {
    let mut ps: Vec<Value> = vec![];
    for _ in 0..n {
        let nm = string(r, c, true);
        if !ps.iter().any(|x| x[0] == nm) {
            ps.push(json!([nm, prop(r, c, 0)]));
        }
    }
    json!({"gv": gv, "hdr": h, "ps": ps})
}

// ---------------------------------------------------------------- hints a file needs
fn tn_of(sv: &Value) -> Value {
    vs(match sv["k"].as_str().unwrap() {
        "VectorF" | "VectorD" => "Vector",
        "Vector2F" | "Vector2D" => "Vector2D",
        "RotatorF" | "RotatorD" => "Rotator",
        "QuatF" | "QuatD" => "Quat",
        "Tags" => "GameplayTagContainer",
        "Custom" => "Cust",
        k => k,
    })
}
pub fn name_of(p: &Value) -> String {
    match p["k"].as_str().unwrap() {
        "Unknown" => crate::conv::st(&p["ty"]),
        "SV" => "StructProperty".into(),
        k => type_of(k),
    }
}
fn list(v: &Value) -> impl Iterator<Item = &Value> {
    v.as_array().unwrap().iter()
}
fn hints_sv(sv: &Value, path: &str, out: &mut Vec<Value>) {
    if sv["k"] == "Custom" {
        for f in list(&sv["fs"]) {
            for p in list(&f[1]) {
                hints_p(p, &format!("{path}.{}.{}", crate::conv::st(&f[0]), name_of(p)), out);
            }
        }
    }
}
pub fn hints_e(e: &Value, path: &str, out: &mut Vec<Value>) {
    if e["k"] == "SV" {
        let p = format!("{path}.StructProperty");
        let h = json!([vs(&p), tn_of(&e["sv"])]);
        if !out.contains(&h) {
            out.push(h);
        }
        hints_sv(&e["sv"], &p, out);
    }
}
pub fn hints_p(p: &Value, path: &str, out: &mut Vec<Value>) {
    match p["k"].as_str().unwrap() {
        "Struct" => hints_sv(&p["sv"], path, out),
        "Array" if p["w"] == "Structs" => list(&p["es"]).for_each(|e| hints_sv(&e["sv"], path, out)),
        "Set" => list(&p["es"]).for_each(|e| hints_e(e, path, out)),
        "Map" => list(&p["kvs"]).for_each(|kv| {
            hints_e(&kv[0], &format!("{path}.Key"), out);
            hints_e(&kv[1], &format!("{path}.Value"), out);
        }),
        _ => {}
    }
}
pub fn hints_of(f: &Value) -> Vec<Value> {
    let mut out = vec![];
    for p in list(&f["ps"]) {
        hints_p(&p[1], &format!("{}.{}", crate::conv::st(&p[0]), name_of(&p[1])), &mut out);
    }
    out
}
