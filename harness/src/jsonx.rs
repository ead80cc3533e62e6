//! JSON export and import against the shapes given by the specification.
use crate::{conv::*, ops::*};
use gvas::GvasFile;
use serde_json::{Value, json};

pub fn import(text: &str) -> Result<GvasFile, String> {
    guard(|| {
        let mut d = serde_json::Deserializer::from_str(text);
        d.disable_recursion_limit();
        let f: GvasFile = serde::Deserialize::deserialize(&mut d)?;
        d.end()?;
        Ok::<_, serde_json::Error>(f)
    })?
    .map_err(|e| format!("import: {e}"))
}
pub fn export(f: &GvasFile) -> Result<String, String> {
    guard(|| serde_json::to_string(f))?.map_err(|e| format!("export: {e}"))
}

pub fn round_trip(f: &GvasFile, exp: &Value, b: Option<&[u8]>) -> Out {
    let text = export(f)?;
    let back = import(&text)?;
    same("imported save", &file_out(&back), exp)?;
    if &back != f {
        return Err("imported save compares unequal".into());
    }
    if export(&back)? != text {
        return Err("second export differs from the first".into());
    }
    let pretty = guard(|| serde_json::to_string_pretty(f))?.map_err(|e| format!("export: {e}"))?;
    let back = import(&pretty)?;
    same("imported save (indented)", &file_out(&back), exp)?;
    // through a tree, and from bytes
    let tree = guard(|| serde_json::to_value(f))?.map_err(|e| format!("export to a tree: {e}"))?;
    let back = guard(|| serde_json::from_value::<GvasFile>(tree))?.map_err(|e| format!("import from a tree: {e}"))?;
    same("save imported from a tree", &file_out(&back), exp)?;
    if let Some(b) = b {
        let w = write_file(&back).ok("write imported save")?;
        let gv = exp["gv"].as_str().unwrap_or("Default");
        if gv == "Default" { same_bytes("imported save written", &w, b)? } else { check_container(&w, gv, b)? }
    }
    Ok(())
}

/// the JSON a template stands for
fn render(t: &Value) -> Value {
    let l = list(t);
    match l[0].as_str().unwrap() {
        "o" => Value::Object(list(&l[1]).iter().map(|e| (e[0].as_str().unwrap().to_string(), render(&e[1]))).collect()),
        "m" => Value::Object(list(&l[1]).iter().map(|e| (st(&e[0]), render(&e[1]))).collect()),
        "a" => Value::Array(list(&l[1]).iter().map(render).collect()),
        "s" => json!(st(&l[1])),
        "c" => l[1].clone(),
        "b" => json!(l[1] == 1),
        "z" => Value::Null,
        "n" => {
            let b = bytes(&l[2]);
            let u = b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
            match l[1].as_str().unwrap() {
                "u8" | "u16" | "u32" | "u64" => json!(u),
                "i8" => json!(u as u8 as i8),
                "i16" => json!(u as u16 as i16),
                "i32" => json!(u as u32 as i32),
                "i64" => json!(u as i64),
                "f32" => json!(f32::from_bits(u as u32)),
                "f64" => json!(f64::from_bits(u)),
                x => panic!("number type {x}"),
            }
        }
        x => panic!("template {x}"),
    }
}
/// compare with the template; data members in order, fixed members in any order
fn matches(got: &Value, t: &Value, path: &mut String) -> Out {
    let l = list(t);
    let bad = |path: &str, why: String| Err(format!("exported JSON at {path}: {why}"));
    let kind = l[0].as_str().unwrap();
    let n = path.len();
    match kind {
        "o" | "m" => {
            let Some(o) = got.as_object() else { return bad(path, "not an object".into()) };
            let es = list(&l[1]);
            if o.len() != es.len() {
                return bad(path, format!("members {:?} instead of {}", o.keys().collect::<Vec<_>>(), es.len()));
            }
            for (i, e) in es.iter().enumerate() {
                let name = if kind == "o" { e[0].as_str().unwrap().to_string() } else { st(&e[0]) };
                if kind == "m" && o.get_index_key(i) != Some(&name) {
                    return bad(path, format!("member {i} is not {name:?}"));
                }
                let Some(v) = o.get(&name) else { return bad(path, format!("no member {name:?}")) };
                path.push('/');
                path.push_str(&name);
                matches(v, &e[1], path)?;
                path.truncate(n);
            }
            Ok(())
        }
        "a" => {
            let es = list(&l[1]);
            let Some(a) = got.as_array() else { return bad(path, "not an array".into()) };
            if a.len() != es.len() {
                return bad(path, format!("{} elements instead of {}", a.len(), es.len()));
            }
            for i in 0..es.len() {
                path.push_str(&format!("/{i}"));
                matches(&a[i], &es[i], path)?;
                path.truncate(n);
            }
            Ok(())
        }
        "n" if l[1] == "f32" => {
            // any decimal text that denotes this single
            let bits = u32::from_le_bytes(arr(&l[2]));
            match got.as_f64() {
                Some(x) if got.is_f64() && (x as f32).to_bits() == bits => Ok(()),
                _ => bad(path, format!("{got} instead of {}", f32::from_bits(bits))),
            }
        }
        _ => {
            let want = render(t);
            if got == &want { Ok(()) } else { bad(path, format!("{got} instead of {want}")) }
        }
    }
}
trait At {
    fn get_index_key(&self, i: usize) -> Option<&String>;
}
impl At for serde_json::Map<String, Value> {
    fn get_index_key(&self, i: usize) -> Option<&String> {
        self.keys().nth(i)
    }
}
pub fn op_json(v: &Value) -> Out {
    let f = file_in(&v["f"]);
    let b = bytes(&v["b"]);
    did();
    let text = export(&f)?;
    let Some(got) = crate::deep(&text) else { return Err("the export is not JSON".into()) };
    matches(&got, &v["j"], &mut String::new())?;
    round_trip(&f, &v["f"], Some(&b))?;
    did();
    // the specified JSON is accepted
    let back = import(&render(&v["j"]).to_string())?;
    same("save imported from the specified JSON", &file_out(&back), &v["f"])
}
