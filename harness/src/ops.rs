//! Operations: run a vector produced by the specification against the library and compare.
use crate::{alloc, conv::*, jsonx, session, streams::*};
use flate2::{Compression, read::ZlibDecoder, write::ZlibEncoder};
use gvas::{
    GvasFile, GvasHeader,
    cursor_ext::{ReadExt, WriteExt},
    error::Error,
    game_version::GameVersion,
    properties::{
        Property, PropertyOptions, PropertyTrait, array_property::ArrayProperty, map_property::MapProperty,
        struct_property::StructPropertyValue,
        text_property::{FText, FTextHistory, FormatArgumentValue, NumberFormattingOptions},
    },
    types::{Guid, map::HashableIndexMap},
};
use serde_json::{Value, json};
use std::{
    collections::{HashMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    io::{Cursor, Read, Write},
    panic::{AssertUnwindSafe, catch_unwind},
};

pub type Out = Result<(), String>;
pub type Hints = HashMap<String, String>;

/// Where we are inside a vector, for crash attribution
pub static SUB: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn sub(n: usize) {
    SUB.store(n as u64, std::sync::atomic::Ordering::Relaxed);
    crate::beat();
}
/// Number of comparisons made
pub static DONE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn did() {
    DONE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

pub fn list(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
pub fn hints(v: &Value) -> Hints {
    list(v).iter().map(|e| (st(&e[0]), st(&e[1]))).collect()
}
fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
/// A panic in the code under test is an outcome, not a failure of the harness
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("panic: {}", panic_text(p)))
}
pub enum Got<T> {
    Ok(T),
    Err(Error),
    Panic(String),
}
pub fn call<T>(f: impl FnOnce() -> Result<T, Error>) -> Got<T> {
    match guard(f) {
        Ok(Ok(x)) => Got::Ok(x),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(p),
    }
}
impl<T> Got<T> {
    pub fn ok(self, what: &str) -> Result<T, String> {
        match self {
            Got::Ok(x) => Ok(x),
            Got::Err(e) => Err(format!("{what}: error {e}")),
            Got::Panic(p) => Err(format!("{what}: {p}")),
        }
    }
    fn class(&self) -> &'static str {
        match self {
            Got::Ok(_) => "ok",
            Got::Err(_) => "err",
            Got::Panic(_) => "panic",
        }
    }
}

/// First place where two JSON values differ
pub fn diff(a: &Value, b: &Value) -> String {
    fn go(a: &Value, b: &Value, path: &mut String) -> Option<String> {
        match (a, b) {
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().min(y.len()) {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(r) = go(&x[i], &y[i], path) {
                        return Some(r);
                    }
                    path.truncate(l);
                }
                (x.len() != y.len()).then(|| format!("{path}: length {} instead of {}", x.len(), y.len()))
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in y {
                    let l = path.len();
                    path.push_str(&format!(".{k}"));
                    match x.get(k) {
                        None => return Some(format!("{path}: missing")),
                        Some(w) => {
                            if let Some(r) = go(w, v, path) {
                                return Some(r);
                            }
                        }
                    }
                    path.truncate(l);
                }
                x.keys().find(|k| !y.contains_key(*k)).map(|k| format!("{path}.{k}: unexpected"))
            }
            _ => (a != b).then(|| {
                let t = |v: &Value| {
                    let s = v.to_string();
                    s.chars().take(60).collect::<String>()
                };
                format!("{path}: {} instead of {}", t(a), t(b))
            }),
        }
    }
    go(a, b, &mut String::new()).unwrap_or_default()
}
pub fn same(what: &str, got: &Value, exp: &Value) -> Out {
    if got == exp { Ok(()) } else { Err(format!("{what}: {}", diff(got, exp))) }
}
pub fn same_bytes(what: &str, got: &[u8], exp: &[u8]) -> Out {
    if got == exp {
        return Ok(());
    }
    let i = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
    Err(format!(
        "{what}: bytes differ at {i} (got {:?}, expected {:?}; lengths {} and {})",
        got.get(i),
        exp.get(i),
        got.len(),
        exp.len()
    ))
}

pub fn gver(gv: &str) -> GameVersion {
    if gv == "Default" { GameVersion::Default } else { GameVersion::Palworld }
}
pub fn read_file(b: &[u8], h: &Hints, gv: &str) -> Got<GvasFile> {
    call(|| GvasFile::read_with_hints(&mut Cursor::new(b), gver(gv), h))
}
pub fn write_file(f: &GvasFile) -> Got<Vec<u8>> {
    call(|| {
        let mut c = Cursor::new(Vec::new());
        f.write(&mut c)?;
        Ok(c.into_inner())
    })
}

// ---------------------------------------------------------------- Palworld containers
pub fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn inflate(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut d = ZlibDecoder::new(b);
    let mut out = vec![];
    d.read_to_end(&mut out).map_err(|e| e.to_string())?;
    Ok((out, d.total_in() as usize))
}
pub fn kind_byte(gv: &str) -> u8 {
    match gv {
        "None" => 0x30,
        "Zlib" => 0x31,
        "ZlibTwice" => 0x32,
        _ => panic!("kind {gv}"),
    }
}
pub fn pal_payload(plain: &[u8], gv: &str, level: u32) -> (Vec<u8>, usize) {
    match gv {
        "None" => (plain.to_vec(), plain.len()),
        "Zlib" => {
            let p = deflate(plain, level);
            let n = p.len();
            (p, n)
        }
        "ZlibTwice" => {
            let inner = deflate(plain, level);
            (deflate(&inner, level), inner.len())
        }
        _ => panic!("kind {gv}"),
    }
}
pub fn container(plain: &[u8], gv: &str, level: u32) -> Vec<u8> {
    let (p, n) = pal_payload(plain, gv, level);
    let mut out = vec![];
    out.extend((plain.len() as u32).to_le_bytes());
    out.extend((n as u32).to_le_bytes());
    out.extend(b"PlZ");
    out.push(kind_byte(gv));
    out.extend(p);
    out
}
/// plain bytes, or the container around them
pub fn wrap(plain: &[u8], gv: &str) -> Vec<u8> {
    // "Raw": read as a Palworld file, but the bytes are as they are
    if gv == "Default" || gv == "Raw" { plain.to_vec() } else { container(plain, gv, 6) }
}
/// check a written container against the plain encoding
pub fn check_container(c: &[u8], gv: &str, plain: &[u8]) -> Out {
    if c.len() < 12 {
        return Err(format!("container of {} bytes", c.len()));
    }
    let dlen = u32::from_le_bytes(c[0..4].try_into().unwrap()) as usize;
    let clen = u32::from_le_bytes(c[4..8].try_into().unwrap()) as usize;
    if dlen != plain.len() {
        return Err(format!("uncompressed size {dlen} instead of {}", plain.len()));
    }
    if &c[8..11] != b"PlZ" {
        return Err("container magic".into());
    }
    if c[11] != kind_byte(gv) {
        return Err(format!("compression kind {:#x} for {gv}", c[11]));
    }
    let payload = &c[12..];
    let (got, want) = match gv {
        "None" => (payload.to_vec(), payload.len()),
        "Zlib" => {
            let (x, used) = inflate(payload)?;
            if used != payload.len() {
                return Err("bytes after the compressed stream".into());
            }
            (x, payload.len())
        }
        _ => {
            let (inner, used) = inflate(payload)?;
            if used != payload.len() {
                return Err("bytes after the outer compressed stream".into());
            }
            let (x, used) = inflate(&inner)?;
            if used != inner.len() {
                return Err("bytes after the inner compressed stream".into());
            }
            (x, inner.len())
        }
    };
    if clen != want {
        return Err(format!("compressed size {clen} instead of {want}"));
    }
    same_bytes("decompressed payload", &got, plain)
}

// ---------------------------------------------------------------- single properties
pub struct Opts {
    pub hints: Hints,
    pub stack: Vec<String>,
    pub cvs: HashableIndexMap<Guid, u32>,
}
impl Opts {
    pub fn new(v: &Value) -> Self {
        Opts {
            hints: hints(&v["h"]),
            stack: list(&v["path"]).iter().map(st).collect(),
            cvs: cvs_in(&v["cvs"]),
        }
    }
    pub fn get(&mut self) -> PropertyOptions<'_> {
        PropertyOptions { hints: &self.hints, properties_stack: &mut self.stack, custom_versions: &self.cvs }
    }
}
pub fn write_prop(p: &Property, tagged: bool, o: &mut Opts) -> Got<(Vec<u8>, usize)> {
    call(|| {
        let mut c = Cursor::new(Vec::new());
        let n = p.write(&mut c, tagged, &mut o.get())?;
        Ok((c.into_inner(), n))
    })
}

/// outcome in the form of the specification
pub fn outcome<T>(g: &Got<T>, f: impl FnOnce(&T) -> Value) -> Value {
    match g {
        Got::Ok(x) => {
            let mut v = f(x);
            v["r"] = json!("ok");
            v
        }
        Got::Err(e) => json!({"r":"err","e":err_out(e),"msg":e.to_string()}),
        Got::Panic(p) => json!({"r":"panic","what":p}),
    }
}
/// The error has the expected kind, values, position and hint path, and its message shows them
fn judge_err(what: &str, got: &Value, exp: &Value) -> Out {
    let (e, msg) = (&got["e"], got["msg"].as_str().unwrap_or(""));
    let in_header = exp["k"] == "InvalidHeader";
    for k in ["k", "n", "p", "s"] {
        // the value of a header error is only in the message
        if !(in_header && k == "n") && e[k] != exp[k] {
            return Err(format!("{what}: error {e} instead of {exp} ({msg})"));
        }
    }
    let mut shown: Vec<String> = vec![];
    for n in list(&exp["n"]) {
        let b = bytes(n);
        shown.push(match exp["k"].as_str().unwrap_or("") {
            "InvalidString" => i32::from_le_bytes(b[..4].try_into().unwrap()).to_string(),
            "InvalidEnumValue" => (b[0] as i8).to_string(),
            _ => b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64).to_string(),
        });
    }
    if !in_header && exp["k"] != "Io" && exp["k"] != "Serialize" {
        shown.push(format!("{:#x}", exp["p"].as_u64().unwrap_or(0)));
    }
    if exp["k"] == "MissingHint" {
        shown.push(st(&exp["s"]));
    }
    match shown.iter().find(|x| !msg.contains(x.as_str())) {
        Some(x) => Err(format!("{what}: the message {msg:?} does not show {x}")),
        None => Ok(()),
    }
}
/// compare an outcome with an expected one: every field present in the expectation must agree
/// ("any" only forbids crashes)
pub fn judge(what: &str, got: &Value, exp: &Value) -> Out {
    did();
    if got["r"] == "panic" {
        return Err(format!("{what}: panic: {}", got["what"]));
    }
    if exp["r"] == "any" {
        return Ok(());
    }
    for (k, v) in exp.as_object().unwrap() {
        if k == "e" && got["r"] == "err" {
            judge_err(what, got, v)?;
            continue;
        }
        if &got[k] != v {
            if k == "r" {
                let more = if got["r"] == "err" { got["e"].to_string() } else { String::new() };
                return Err(format!("{what}: outcome {} instead of {} {more}", got["r"], v));
            }
            return Err(format!("{what}: {k}{}", diff(&got[k], v)));
        }
    }
    Ok(())
}

pub fn run(v: &Value) -> Out {
    match v["op"].as_str().unwrap_or("") {
        "doc" => op_doc(v),
        "muts" => op_muts(v),
        "cuts" => op_cuts(v),
        "read" => {
            let (h, gv) = (hints(&v["h"]), v["gv"].as_str().unwrap_or("Default"));
            let g = read_file(&bytes(&v["b"]), &h, gv);
            judge("read", &outcome(&g, |f| json!({"file": file_out(f)})), &v["x"])?;
            match g {
                Got::Ok(f) if v["stable"] == 1 => stable_from(f, &h, gv),
                _ => Ok(()),
            }
        }
        "write" => {
            let f = file_in(&v["f"]);
            let g = write_file(&f);
            judge("write", &outcome(&g, |b| json!({"b": vb(b)})), &v["x"])
        }
        "prop_read" => op_prop_read(v),
        "prop_write" => op_prop_write(v),
        "hdr_read" => op_hdr_read(v),
        "hdr_write" => {
            let h = header_in(&v["hdr"]);
            let g = call(|| {
                let mut c = Cursor::new(Vec::new());
                let n = h.write(&mut c)?;
                Ok((c.into_inner(), n))
            });
            judge("header write", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["x"])
        }
        "str" => op_str(v),
        "text_write" => {
            let t = text_in(&v["t"]);
            let mut o = Opts::new(v);
            let g = call(|| {
                let mut c = Cursor::new(Vec::new());
                let n = t.write(&mut c, &o.get())?;
                Ok((c.into_inner(), n))
            });
            judge("text write", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["x"])?;
            if v["x"]["r"] == "ok" {
                let b = bytes(&v["x"]["b"]);
                let g = call(|| FText::read(&mut Cursor::new(&b), &o.get()));
                judge("text read", &outcome(&g, |t| json!({"t": text_out(t)})), &json!({"r":"ok","t":v["t"]}))?;
            }
            Ok(())
        }
        "guid" => op_guid(v),
        "guid_parse" => op_guid_parse(v),
        "array_new" => op_array_new(v),
        "map_new" => op_map_new(v),
        "pair" => op_pair(v),
        "hashset" => op_hashset(v),
        "pal_write" => op_pal_write(v),
        "pal_read" => op_pal_read(v),
        "io_write" => op_io_write(v),
        "io_read" => op_io_read(v),
        "io_script" => op_io_script(v),
        "io_prop" => op_io_prop(v),
        "json" => jsonx::op_json(v),
        "session" => session::op_session(v),
        "seq" => op_seq(v),
        "hintloop" => op_hintloop(v),
        "blob" => op_blob(v),
        "huge" => op_huge(v),
        "engines" => crate::versions::op_engines(v),
        "ctor" => crate::ctor::op_ctor(v),
        "show" => crate::ctor::op_show(v),
        "imap" => crate::ctor::op_imap(v),
        "engine" => crate::versions::op_engine(v),
        "version" => crate::versions::op_version(v),
        "stream" => crate::versions::op_stream(v),
        "numbers" => crate::versions::op_numbers(v),
        "header_versions" => crate::versions::op_header_versions(v),
        "part" => crate::parts::op_part(v),
        "textpart" => crate::parts::op_textpart(v),
        "indep" => crate::indep::op_indep(v),
        x => panic!("unknown operation {x:?}"),
    }
}

// ---------------------------------------------------------------- whole documents
fn op_doc(v: &Value) -> Out {
    let h = hints(&v["h"]);
    let b = if v["b"].is_array() { bytes(&v["b"]) } else { vec![] };
    for (i, ck) in list(&v["ck"]).iter().enumerate() {
        sub(i);
        did();
        match ck.as_str().unwrap() {
            "read" => {
                let f = read_file(&b, &h, "Default").ok("read")?;
                same("value read", &file_out(&f), &v["f"])?;
            }
            "write" => {
                let f = file_in(&v["f"]);
                let w = write_file(&f).ok("write")?;
                same_bytes("file written", &w, &b)?;
            }
            "rw" => {
                let f = read_file(&b, &h, "Default").ok("read")?;
                let w = write_file(&f).ok("write back")?;
                same_bytes("file read and written back", &w, &b)?;
            }
            "rwpal" => {
                // no compression: exact; compressed: exact for what the library itself wrote
                let c = wrap(&b, "None");
                let f = read_file(&c, &h, "None").ok("read container")?;
                let w = write_file(&f).ok("write container back")?;
                same_bytes("container read and written back", &w, &c)?;
                for gv in ["Zlib", "ZlibTwice"] {
                    let f = read_file(&wrap(&b, gv), &h, gv).ok("read container")?;
                    let w = write_file(&f).ok("write container back")?;
                    check_container(&w, gv, &b)?;
                    let f2 = read_file(&w, &h, gv).ok("read own container")?;
                    let w2 = write_file(&f2).ok("write own container back")?;
                    same_bytes("own container read and written back", &w2, &w)?;
                }
            }
            "wr" => write_read(v, "Default", &h)?,
            "wrpal" => {
                for gv in ["None", "Zlib", "ZlibTwice"] {
                    write_read(v, gv, &h)?;
                }
            }
            "stable" => stable(&b, &h, "Default")?,
            "stablepal" => {
                for gv in ["None", "Zlib", "ZlibTwice"] {
                    stable(&wrap(&b, gv), &h, gv)?;
                }
            }
            "json" => {
                let f = file_in(&v["f"]);
                jsonx::round_trip(&f, &v["f"], if v["b"].is_array() { Some(&b) } else { None })?;
            }
            "clone" => {
                let f = file_in(&v["f"]);
                let c = f.clone();
                if f != c {
                    return Err("a clone differs from its original".into());
                }
                same("clone", &file_out(&c), &v["f"])?;
                for (p, q) in f.properties.0.values().zip(c.properties.0.values()) {
                    if hash(p) != hash(q) {
                        return Err("a clone hashes differently".into());
                    }
                }
                let g = file_in(&v["f"]);
                if g != f {
                    return Err("two identical saves differ".into());
                }
            }
            "accept" => {
                read_file(&b, &h, "Default").ok("read")?;
            }
            "counts" => counts(&file_in(&v["f"]), &b)?,
            "any" => any(&b, &h)?,
            x => panic!("unknown check {x}"),
        }
    }
    Ok(())
}

/// whatever is done to a save, reading it answers
fn any(b: &[u8], h: &HashMap<String, String>) -> Out {
    let none = HashMap::new();
    let one = |what: &str, b: &[u8], h: &HashMap<String, String>, gv: &str| {
        let (g, peak) = alloc::peak(|| read_file(b, h, gv));
        if let Got::Panic(p) = g {
            return Err(format!("{what}: {p}"));
        }
        check_mem(what, peak, b.len())
    };
    for gv in ["Default", "None", "Zlib", "ZlibTwice"] {
        one(&format!("save ({gv})"), &wrap(b, gv), h, gv)?;
    }
    one("save without hints", b, &none, "Default")?;
    one("plain save as a container", b, h, "None")?;
    let mut c = b.to_vec();
    for k in 0..16 {
        let at = (b.len() * 7 + k * 104_729 + k * k * 31) % b.len();
        let old = c[at];
        c[at] = match k % 4 {
            0 => 0,
            1 => 255,
            2 => old.wrapping_add(1),
            _ => old ^ 128,
        };
        one(&format!("byte {at} changed to {}", c[at]), &c, h, "Default")?;
        if k % 4 == 3 {
            one(&format!("cut at {at}"), &b[..at], h, "Default")?;
        }
        c[at] = old;
    }
    Ok(())
}

/// byte counts reported for the header and for each top-level property, tagged and not
fn counts(f: &GvasFile, b: &[u8]) -> Out {
    let mut c = Cursor::new(Vec::new());
    let n = call(|| f.header.write(&mut c)).ok("header write")?;
    if n != c.get_ref().len() {
        return Err(format!("header: reported {n}, wrote {}", c.get_ref().len()));
    }
    let mut at = n;
    let mut o = Opts { hints: HashMap::new(), stack: vec![], cvs: f.header.get_custom_versions().clone() };
    for (i, (name, p)) in f.properties.0.iter().enumerate() {
        let mut c = Cursor::new(Vec::new());
        let n = call(|| c.write_string(name)).ok("name write")?;
        if n != c.get_ref().len() {
            return Err(format!("name of property {i}: reported {n}, wrote {}", c.get_ref().len()));
        }
        at += n;
        let (w, n) = write_prop(p, true, &mut o).ok("tagged write")?;
        if n != w.len() {
            return Err(format!("property {i} tagged: reported {n}, wrote {}", w.len()));
        }
        // compare with the specified encoding too: the count must not be right about wrong bytes
        if b.len() < at + n || b[at..at + n] != w[..] {
            return Err(format!("property {i} tagged: bytes are not those of the specification"));
        }
        at += n;
        let (w, n) = write_prop(p, false, &mut o).ok("untagged write")?;
        if n != w.len() {
            return Err(format!("property {i} untagged: reported {n}, wrote {}", w.len()));
        }
        let mut s = Dribble(Vec::new());
        let m = call(|| p.write(&mut s, true, &mut o.get())).ok("write in small pieces")?;
        if m != s.0.len() {
            return Err(format!("property {i} in small pieces: reported {m}, wrote {}", s.0.len()));
        }
        part_counts(p, &mut o).map_err(|e| format!("property {i}: {e}"))?;
    }
    Ok(())
}
/// takes at most three bytes at a time
struct Dribble(Vec<u8>);
impl Write for Dribble {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// the count reported by f for what it writes; errors are other checks' business
fn counted(what: &str, f: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<usize, Error>) -> Out {
    did();
    let mut c = Cursor::new(vec![7u8; 5]);
    c.set_position(5);
    match call(|| f(&mut c)) {
        Got::Ok(n) if n + 5 != c.get_ref().len() => {
            Err(format!("{what}: reported {n}, wrote {}", c.get_ref().len() - 5))
        }
        Got::Panic(p) => Err(format!("{what}: {p}")),
        _ => Ok(()),
    }
}
/// every part of a property by itself: elements, keys, values, fields, texts and their parts
pub fn part_counts(p: &Property, o: &mut Opts) -> Out {
    counted("tagged", |c| p.write(c, true, &mut o.get()))?;
    counted("untagged", |c| p.write(c, false, &mut o.get()))?;
    counted("body", |c| p.write_body(c, &mut o.get()))?;
    match p {
        Property::ArrayProperty(ArrayProperty::Structs { structs, .. }) => {
            structs.iter().try_for_each(|s| part_counts(&Property::StructPropertyValue(s.clone()), o))
        }
        Property::ArrayProperty(ArrayProperty::Properties { properties, .. }) => {
            properties.iter().try_for_each(|e| part_counts(e, o))
        }
        Property::SetProperty(s) => s.properties.iter().try_for_each(|e| part_counts(e, o)),
        Property::MapProperty(MapProperty::Properties { value, .. }) => {
            value.0.iter().try_for_each(|(a, b)| part_counts(a, o).and(part_counts(b, o)))
        }
        Property::MapProperty(MapProperty::EnumProperty { enum_props: m, .. })
        | Property::MapProperty(MapProperty::NameProperty { name_props: m, .. })
        | Property::MapProperty(MapProperty::StrProperty { str_props: m, .. }) => {
            m.0.values().try_for_each(|e| part_counts(e, o))
        }
        Property::StructProperty(s) => part_counts(&Property::StructPropertyValue(s.value.clone()), o),
        Property::StructPropertyValue(StructPropertyValue::CustomStruct(fs)) => {
            fs.0.values().flatten().try_for_each(|e| part_counts(e, o))
        }
        Property::TextProperty(t) => text_counts(&t.value, o),
        Property::StrProperty(s) => counted("string", |c| c.write_fstring(s.value.as_deref())),
        Property::NameProperty(s) => counted("name", |c| c.write_fstring(s.value.as_deref())),
        Property::ObjectProperty(s) => counted("object path", |c| c.write_string(&s.value)),
        _ => Ok(()),
    }
}
fn text_counts(t: &FText, o: &mut Opts) -> Out {
    counted("text", |c| t.write(c, &mut o.get()))?;
    counted("text history", |c| t.history.write(c, &mut o.get()))?;
    let fo = |f: &Option<NumberFormattingOptions>| match f {
        Some(f) => counted("number format", |c| f.write(c)),
        None => Ok(()),
    };
    match &t.history {
        FTextHistory::NamedFormat { source_format, arguments }
        | FTextHistory::ArgumentFormat { source_format, arguments } => {
            text_counts(source_format, o)?;
            arguments.0.values().try_for_each(|a| arg_counts(a, o))
        }
        FTextHistory::OrderedFormat { source_format, arguments } => {
            text_counts(source_format, o)?;
            arguments.iter().try_for_each(|a| arg_counts(a, o))
        }
        FTextHistory::AsNumber { source_value, format_options, .. }
        | FTextHistory::AsPercent { source_value, format_options, .. }
        | FTextHistory::AsCurrency { source_value, format_options, .. } => {
            fo(format_options)?;
            arg_counts(source_value, o)
        }
        FTextHistory::Transform { source_text, .. } => text_counts(source_text, o),
        _ => Ok(()),
    }
}
fn arg_counts(a: &FormatArgumentValue, o: &mut Opts) -> Out {
    counted("text argument", |c| a.write(c, &mut o.get()))?;
    match a {
        FormatArgumentValue::Text(t) => text_counts(t, o),
        _ => Ok(()),
    }
}

fn write_read(v: &Value, gv: &str, h: &Hints) -> Out {
    let mut exp = v["f"].clone();
    exp["gv"] = json!(gv);
    let f = file_in(&exp);
    let w = write_file(&f).ok(&format!("write ({gv})"))?;
    let g = read_file(&w, h, gv).ok(&format!("read back ({gv})"))?;
    same("value read back", &file_out(&g), &exp)?;
    if g != f {
        return Err("value read back compares unequal".into());
    }
    Ok(())
}

pub fn stable(b: &[u8], h: &Hints, gv: &str) -> Out {
    let x1 = read_file(b, h, gv).ok("read")?;
    stable_from(x1, h, gv)
}
pub fn stable_from(x1: GvasFile, h: &Hints, gv: &str) -> Out {
    let v1 = file_out(&x1);
    let b1 = write_file(&x1).ok("write an accepted save")?;
    let x2 = read_file(&b1, h, gv).ok("read a re-saved file")?;
    same("re-saved file read again", &file_out(&x2), &v1)?;
    if x1 != x2 {
        return Err("re-saved file compares unequal".into());
    }
    let b2 = write_file(&x2).ok("write again")?;
    same_bytes("second re-save", &b2, &b1)?;
    let x3 = read_file(&b2, h, gv).ok("read a third time")?;
    let b3 = write_file(&x3).ok("write a third time")?;
    same_bytes("third re-save", &b3, &b1)
}

/// mutations of one file: [at, number of bytes removed, bytes inserted, expectation]
fn op_muts(v: &Value) -> Out {
    let base = bytes(&v["b"]);
    let h = hints(&v["h"]);
    let gv = v["gv"].as_str().unwrap_or("Default");
    for (i, m) in list(&v["ms"]).iter().enumerate() {
        sub(i);
        let at = m["a"].as_u64().unwrap() as usize;
        let del = m["d"].as_u64().unwrap() as usize;
        let mut b = base[..at].to_vec();
        b.extend(bytes(&m["i"]));
        b.extend(&base[(at + del).min(base.len())..]);
        // a second, independent mutation further on in the file (offset in the original)
        let b = if gv == "Default" { b } else { wrap(&b, gv) };
        let what = || format!("mutation {i} (at {at}, {del} bytes replaced by {})", m["i"]);
        let (g, peak) = alloc::peak(|| read_file(&b, &h, gv));
        let x = &m["x"];
        judge(&what(), &outcome(&g, |f| if x["file"].is_object() { json!({"file": file_out(f)}) } else { json!({}) }), x)?;
        if v["mem"] == 1 {
            check_mem(&what(), peak, b.len())?;
        }
        if v["stable"] == 1 {
            if let Got::Ok(f) = g {
                stable_from(f, &h, gv).map_err(|e| format!("{}: {e}", what()))?;
            }
        }
        // some of them inside a container as well
        if i % 8 == 3 && gv == "Default" {
            let gv = ["None", "Zlib", "ZlibTwice"][i / 8 % 3];
            let g = read_file(&wrap(&b, gv), &h, gv);
            let mut x = x.clone();
            if x["file"].is_object() {
                x["file"]["gv"] = json!(gv);
            }
            judge(&format!("{}, in a container ({gv})", what()), &outcome(&g, |f| if x["file"].is_object() { json!({"file": file_out(f)}) } else { json!({}) }), &x)?;
        }
    }
    Ok(())
}
pub fn check_mem(what: &str, peak: usize, len: usize) -> Out {
    let allowed = (48 << 20) + 600 * len;
    if peak > allowed { Err(format!("{what}: {peak} bytes of memory for an input of {len} bytes")) } else { Ok(()) }
}

/// every proper prefix up to `end` must be rejected
fn op_cuts(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let h = hints(&v["h"]);
    let gv = v["gv"].as_str().unwrap_or("Default");
    let end = v["end"].as_u64().unwrap() as usize;
    let b = wrap(&plain, gv);
    if let Got::Panic(p) = read_file(&b, &h, gv) {
        return Err(format!("uncut file: {p}"));
    }
    let n = if gv == "Default" { end } else { b.len() };
    let step = v["step"].as_u64().unwrap_or(1).max(1) as usize;
    let mut cut = 0;
    while cut < n {
        sub(cut);
        let short = &b[..cut];
        // for a container, only what can be decompressed counts
        let must = gv == "Default" || {
            cut < 12 || {
                let p = match gv {
                    "None" => short[12..].to_vec(),
                    "Zlib" => partial(&short[12..]),
                    _ => partial(&partial(&short[12..])),
                };
                p.len() < end
            }
        };
        if must {
            did();
            match read_file(short, &h, gv) {
                Got::Ok(_) => return Err(format!("a save cut at {cut} of {} was accepted ({gv})", b.len())),
                Got::Panic(p) => return Err(format!("a save cut at {cut}: {p}")),
                Got::Err(_) => {}
            }
        }
        // single steps near the ends, strides in between for long files
        cut += if cut < 600 || n - cut < 200 { 1 } else { step };
    }
    // and between any two fields
    for cut in list(&v["at"]).iter().map(|c| c.as_u64().unwrap() as usize).filter(|c| step > 1 && gv == "Default" && *c < n) {
        sub(cut);
        did();
        match read_file(&b[..cut], &h, gv) {
            Got::Ok(_) => return Err(format!("a save cut at {cut} of {} was accepted", b.len())),
            Got::Panic(p) => return Err(format!("a save cut at {cut}: {p}")),
            Got::Err(_) => {}
        }
    }
    Ok(())
}
fn partial(b: &[u8]) -> Vec<u8> {
    let mut d = ZlibDecoder::new(b);
    let mut out = vec![];
    let mut buf = [0u8; 4096];
    while let Ok(n) = d.read(&mut buf) {
        if n == 0 {
            break;
        }
        out.extend(&buf[..n]);
    }
    out
}

// ---------------------------------------------------------------- properties through the public constructor
pub fn prop_read_outcome(v: &Value) -> (Value, Vec<String>) {
    let b = bytes(&v["b"]);
    let mut o = Opts::new(v);
    let mut c = Cursor::new(&b);
    c.set_position(v["p"].as_u64().unwrap_or(0));
    let ty = st(&v["ty"]);
    let tagged = v["tagged"] == true;
    let sug = v["sug"].as_i64().unwrap_or(-1);
    let sug = if sug < 0 { None } else { Some(sug as u32) };
    let g = call(|| Property::new(&mut c, &ty, tagged, &mut o.get(), sug));
    let pos = c.position();
    (outcome(&g, |p| json!({"prop": prop_out(p), "p": pos})), o.stack)
}
fn op_prop_read(v: &Value) -> Out {
    let (got, stack) = prop_read_outcome(v);
    judge("property read", &got, &v["x"])?;
    let before: Vec<String> = list(&v["path"]).iter().map(st).collect();
    if stack != before {
        return Err(format!("location stack {before:?} became {stack:?}"));
    }
    Ok(())
}
/// start without hints and supply the one each error asks for
fn op_hintloop(v: &Value) -> Out {
    let b = bytes(&v["b"]);
    let all = hints(&v["h"]);
    let mut have = Hints::new();
    let mut at = 0;
    loop {
        did();
        match read_file(&b, &have, "Default") {
            Got::Ok(f) => {
                same("save", &file_out(&f), &v["f"])?;
                if have.len() != all.len() {
                    return Err(format!("{} hints were asked for instead of {}", have.len(), all.len()));
                }
                return Ok(());
            }
            Got::Panic(p) => return Err(p),
            Got::Err(e) => {
                let e = err_out(&e);
                let path = st(&e["s"]);
                if e["k"] != "MissingHint" {
                    return Err(format!("error {e} instead of a missing hint"));
                }
                let Some(ty) = all.get(&path) else { return Err(format!("a hint for {path:?} is asked for")) };
                if have.insert(path.clone(), ty.clone()).is_some() {
                    return Err(format!("the hint for {path:?} has no effect"));
                }
                let p = e["p"].as_u64().unwrap_or(0);
                if p < at {
                    return Err(format!("position {p} after position {at}"));
                }
                at = p;
            }
        }
    }
}
/// large inputs given as repeated pieces
fn op_blob(v: &Value) -> Out {
    let mut b = vec![];
    for s in list(&v["segs"]) {
        let piece = bytes(&s["b"]);
        for _ in 0..s["n"].as_u64().unwrap() {
            b.extend(&piece);
        }
    }
    let gv = v["gv"].as_str().unwrap_or("Default");
    let h = hints(&v["h"]);
    let b = wrap(&b, gv);
    let (g, peak) = alloc::peak(|| read_file(&b, &h, gv));
    judge("read", &outcome(&g, |_| json!({})), &v["x"])?;
    if v["mem"] == 1 {
        check_mem("read", peak, b.len())?;
    }
    if let Got::Ok(f) = g {
        // using and dropping what was read must not crash either
        let c = guard(|| f.clone())?;
        if v["same"] == 1 {
            let w = write_file(&c).ok("write")?;
            same_bytes("file read and written back", &w, &b)?;
        } else {
            let _ = write_file(&c);
        }
        guard(|| drop((f, c)))?;
    }
    Ok(())
}
/// a save given as head, repeated piece and tail; counters in a piece are four digits in base 64
fn op_huge(v: &Value) -> Out {
    let mut plain = vec![];
    let mut at = 2u32;
    for s in list(&v["segs"]) {
        let mut piece = bytes(&s["b"]);
        let n = s["n"].as_u64().unwrap();
        match list(&s["ctr"]).first() {
            None => (0..n).for_each(|_| plain.extend(&piece)),
            Some(o) => {
                let o = o.as_u64().unwrap() as usize;
                for _ in 0..n {
                    at += 1;
                    for k in 0..4 {
                        piece[o + k] = 48 + (at >> (6 * k) & 63) as u8;
                    }
                    plain.extend(&piece);
                }
            }
        }
    }
    let h = hints(&v["h"]);
    for gv in list(&v["gvs"]) {
        let gv = gv.as_str().unwrap();
        sub(plain.len());
        did();
        let b = wrap(&plain, gv);
        let f = match v["mode"].as_str().unwrap_or("rw") {
            "any" => {
                let (g, peak) = alloc::peak(|| read_file(&b, &h, gv));
                if let Got::Panic(p) = g {
                    return Err(format!("reading a large save ({gv}): {p}"));
                }
                check_mem("large save", peak, plain.len())?;
                continue;
            }
            "cut" => {
                let end = if gv == "Default" { b.len() - 4 } else { b.len() - 8 };
                let mut cuts: Vec<usize> = points(end, 24).into_iter().chain((1..=16).map(|k| (1usize << k).min(end - 1))).collect();
                if gv == "Default" {
                    // around the beginning and the end of what is repeated
                    let part = |i: usize| list(&v["segs"][i]["b"]).len();
                    let (head, tail) = (part(0), end.saturating_sub(part(2)));
                    cuts.extend(head.saturating_sub(60)..head + 2 * part(1).min(40));
                    let step = if b.len() < 200000 { 1 } else if b.len() < 2000000 { 5 } else { 23 };
                    cuts.extend((tail.saturating_sub(40)..end).step_by(step));
                    cuts.retain(|c| *c < end);
                }
                for cut in cuts {
                    sub(cut);
                    did();
                    match read_file(&b[..cut], &h, gv) {
                        Got::Ok(_) => return Err(format!("a large save ({gv}) cut at {cut} of {} was accepted", b.len())),
                        Got::Panic(p) => return Err(format!("a large save ({gv}) cut at {cut}: {p}")),
                        Got::Err(_) => {}
                    }
                }
                continue;
            }
            _ => read_file(&b, &h, gv).ok(&format!("reading a large save ({gv})"))?,
        };
        match v["mode"].as_str().unwrap_or("rw") {
            "io" => {
                let mut total = 0;
                for (chunks, far) in [(vec![70000], 0), (vec![65536, 1], FAR[1]), (vec![4095], FAR[2])] {
                    let plan = Plan { chunks, interrupt: 0, ..Plan::default() };
                    let mut s = Stream::new(b.clone(), 0, plan.clone()).far(far);
                    let g = call(|| GvasFile::read_with_hints(&mut s, gver(gv), &h)).ok("reading a large save in pieces")?;
                    if g != f {
                        return Err(format!("a large save ({gv}) is read differently in pieces"));
                    }
                    let mut s = Stream::new(vec![], 0, plan).far(far);
                    call(|| f.write(&mut s)).ok("writing a large save in pieces")?;
                    if gv == "Default" {
                        same_bytes("large save in pieces", &s.data, &plain)?;
                    } else {
                        check_container(&s.data, gv, &plain)?;
                    }
                    total = s.data.len();
                    let cvs = f.header.get_custom_versions().clone();
                    let mut o = Opts { hints: HashMap::new(), stack: vec![], cvs };
                    for p in f.properties.0.values().take(3) {
                        let (w, _) = write_prop(p, true, &mut o).ok("large property")?;
                        let mut s = Stream::new(vec![], 0, Plan { chunks: vec![4000, 513], ..Plan::default() });
                        call(|| p.write(&mut s, true, &mut o.get())).ok("large property in pieces")?;
                        same_bytes("large property in pieces", &s.data, &w)?;
                    }
                }
                for limit in points(total, 12) {
                    let mut s = Stream::new(vec![], 0, Plan { limit: Some(limit), ..Plan::default() });
                    if let Got::Ok(()) = call(|| f.write(&mut s)) {
                        return Err(format!("success although the destination took only {limit} of {total} bytes"));
                    }
                }
                continue;
            }
            "counts" => {
                counts(&f, &plain)?;
                continue;
            }
            "json" => {
                let text = jsonx::export(&f).map_err(|e| format!("export of a large save: {e}"))?;
                let g = jsonx::import(&text).map_err(|e| format!("import of a large save: {e}"))?;
                if g != f {
                    return Err("a large save is different after export and import".into());
                }
                same_bytes("large save exported, imported and written", &write_file(&g).ok("write")?, &b)?;
                continue;
            }
            "clone" => {
                let g = f.clone();
                if g != f || f.properties.0.values().zip(g.properties.0.values()).any(|(p, q)| hash(p) != hash(q)) {
                    return Err("a clone of a large save differs".into());
                }
                let g = read_file(&b, &h, gv).ok("read again")?;
                if g != f || f.properties.0.values().zip(g.properties.0.values()).any(|(p, q)| hash(p) != hash(q)) {
                    return Err("a large save differs from itself read again".into());
                }
                same_bytes("clone written", &write_file(&f.clone()).ok("write")?, &b)?;
                continue;
            }
            "rw" => {}
            x => panic!("unknown mode {x}"),
        }
        drop(b);
        let w = write_file(&f).ok(&format!("writing a large save ({gv})"))?;
        match gv {
            "Default" => same_bytes("large save read and written back", &w, &plain)?,
            _ => {
                check_container(&w, gv, &plain)?;
                let g = read_file(&w, &h, gv).ok(&format!("reading a large save back ({gv})"))?;
                if g != f {
                    return Err(format!("a large save is read back differently ({gv})"));
                }
            }
        }
    }
    Ok(())
}
/// several reads sharing one location stack
fn op_seq(v: &Value) -> Out {
    let mut o = Opts::new(v);
    let before = o.stack.clone();
    for (i, s) in list(&v["steps"]).iter().enumerate() {
        sub(i);
        let b = bytes(&s["b"]);
        let ty = st(&s["ty"]);
        let tagged = s["tagged"] == true;
        let sug = s["sug"].as_i64().unwrap_or(-1);
        let sug = if sug < 0 { None } else { Some(sug as u32) };
        let mut c = Cursor::new(&b);
        let g = call(|| Property::new(&mut c, &ty, tagged, &mut o.get(), sug));
        let pos = c.position();
        judge(&format!("read {i}"), &outcome(&g, |p| json!({"prop": prop_out(p), "p": pos})), &s["x"])?;
        if o.stack != before {
            return Err(format!("after read {i}: location stack {before:?} became {:?}", o.stack));
        }
    }
    Ok(())
}
fn op_prop_write(v: &Value) -> Out {
    let p = prop_in(&v["prop"]);
    let mut o = Opts::new(v);
    let before = o.stack.clone();
    let g = write_prop(&p, v["tagged"] == true, &mut o);
    judge("property write", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["x"])?;
    if o.stack != before {
        return Err("location stack changed by writing".into());
    }
    if v["tagged"] == false && g.class() == "ok" {
        let g = call(|| {
            let mut c = Cursor::new(Vec::new());
            let n = p.write_body(&mut c, &mut o.get())?;
            Ok((c.into_inner(), n))
        });
        judge("property body write", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["x"])?;
    }
    Ok(())
}
fn op_hdr_read(v: &Value) -> Out {
    let b = bytes(&v["b"]);
    let mut c = Cursor::new(&b);
    let g = call(|| GvasHeader::read(&mut c));
    let pos = c.position();
    judge("header read", &outcome(&g, |h| json!({"hdr": header_out(h), "p": pos})), &v["x"])
}

// ---------------------------------------------------------------- strings
fn op_str(v: &Value) -> Out {
    // reading: optional and required
    if v["b"].is_array() {
        let b = bytes(&v["b"]);
        for (i, m) in list(&v["xs"]).iter().enumerate() {
            sub(i);
            let at = m["p"].as_u64().unwrap_or(0);
            let mut c = Cursor::new(&b);
            c.set_position(at);
            let g = call(|| c.read_fstring());
            let pos = c.position();
            judge("optional string", &outcome(&g, |o| json!({"o": vos(o), "p": pos})), &m["xo"])?;
            let mut c = Cursor::new(&b);
            c.set_position(at);
            let g = call(|| c.read_string());
            let pos = c.position();
            judge("required string", &outcome(&g, |s| json!({"o": json!([vs(s)]), "p": pos})), &m["xs"])?;
        }
    }
    // writing
    if v["o"].is_array() {
        let o = ost(&v["o"]);
        let exp = bytes(&v["w"]);
        let mut c = Cursor::new(Vec::new());
        let n = call(|| c.write_fstring(o.as_deref())).ok("optional string write")?;
        same_bytes("optional string written", c.get_ref(), &exp)?;
        if n != exp.len() {
            return Err(format!("optional string: reported {n}, wrote {}", exp.len()));
        }
        did();
        let mut c = Cursor::new(exp.clone());
        let r = call(|| c.read_fstring()).ok("optional string read back")?;
        if r != o || c.position() as usize != exp.len() {
            return Err("optional string read back differs".into());
        }
        if let Some(s) = &o {
            let mut c = Cursor::new(Vec::new());
            let n = call(|| c.write_string(s)).ok("string write")?;
            same_bytes("string written", c.get_ref(), &exp)?;
            if n != exp.len() {
                return Err(format!("string: reported {n}, wrote {}", exp.len()));
            }
            let mut c = Cursor::new(exp);
            let r = call(|| c.read_string()).ok("string read back")?;
            if &r != s {
                return Err("string read back differs".into());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- GUIDs
fn op_guid(v: &Value) -> Out {
    let b: [u8; 16] = arr(&v["b"]);
    let words: Vec<u32> = list(&v["w"]).iter().map(u32v).collect();
    let words: [u32; 4] = words.try_into().unwrap();
    let num = u128::from_le_bytes(b);
    let s = st(&v["s"]);
    let g = Guid(b);
    let ck = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("guid {b:?}: {what}")) };
    did();
    ck(Guid::from_u8(b) == g && g.to_u8() == b, "bytes")?;
    ck(Guid::from_u32(words).0 == b, "from words")?;
    ck(g.to_u32() == words, "to words")?;
    ck(Guid::from(words).0 == b, "From words")?;
    ck(<[u32; 4]>::from(g) == words, "Into words")?;
    ck(Guid::from_u128(num).0 == b && g.to_u128() == num, "128-bit number")?;
    ck(Guid::from(num).0 == b && u128::from(g) == num, "From/Into 128-bit number")?;
    ck(g.is_zero() == (b == [0; 16]), "is_zero")?;
    let shown = guard(|| g.to_string())?;
    ck(shown == s, &format!("shown as {shown:?} instead of {s:?}"))?;
    ck(matches!(guard(|| s.parse::<Guid>())?, Ok(x) if x.0 == b), "parse of its own text")?;
    ck(matches!(guard(|| s.to_lowercase().parse::<Guid>())?, Ok(x) if x.0 == b), "parse of its own text in lower case")?;
    let j = guard(|| serde_json::to_value(g))?.map_err(|e| e.to_string())?;
    ck(j == json!(s), "JSON")?;
    ck(matches!(serde_json::from_value::<Guid>(j), Ok(x) if x.0 == b), "from JSON")?;
    ck(format!("{g:?}").contains(&s), "debug text")?;
    let mut c = Cursor::new(Vec::new());
    call(|| c.write_guid(&g)).ok("guid write")?;
    ck(c.get_ref()[..] == b, "written bytes")?;
    let mut c = Cursor::new(b.to_vec());
    ck(call(|| c.read_guid()).ok("guid read")?.0 == b, "read bytes")
}
fn op_guid_parse(v: &Value) -> Out {
    let s = st(&v["s"]);
    did();
    let show = |g: &Result<Guid, _>| match g {
        Ok(g) => format!("{:?}", g.0),
        Err(gvas::types::ParseGuidError) => "error".to_string(),
    };
    let g = guard(|| s.parse::<Guid>()).map_err(|p| format!("parsing {s:?}: {p}"))?;
    let exp = if v["x"]["r"] == "ok" { format!("{:?}", arr::<16>(&v["x"]["b"])) } else { "error".into() };
    if show(&g) != exp {
        return Err(format!("parsing {s:?} gives {} instead of {exp}", show(&g)));
    }
    let j = guard(|| serde_json::from_value::<Guid>(json!(s))).map_err(|p| format!("JSON {s:?}: {p}"))?;
    if j.is_ok() != (exp != "error") || j.is_ok_and(|x| format!("{:?}", x.0) != exp) {
        return Err(format!("JSON {s:?} does not give {exp}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- typed construction
/// both forms written to the same bytes
fn forms_same(p: &Property, general: Option<&Property>, v: &Value) -> Out {
    let Some(q) = general else { return Ok(()) };
    let mut o = Opts::new(v);
    for tagged in [true, false] {
        let a = write_prop(p, tagged, &mut o);
        let b = write_prop(q, tagged, &mut o);
        let (a, b) = (outcome(&a, |(b, n)| json!({"b":vb(b),"n":n})), outcome(&b, |(b, n)| json!({"b":vb(b),"n":n})));
        if a["r"] != b["r"] || a["b"] != b["b"] || a["n"] != b["n"] {
            return Err(format!("compact and general form are written differently: {}", diff(&a, &b)));
        }
    }
    Ok(())
}
fn op_array_new(v: &Value) -> Out {
    let et = st(&v["et"]);
    let f = list(&v["f"]).first().map(|f| (st(&f[0]), st(&f[1]), guid(&f[2])));
    let es: Vec<Property> = list(&v["es"]).iter().map(prop_in).collect();
    let g = call(|| ArrayProperty::new(et.clone(), f.clone(), es.clone()));
    judge("array", &outcome(&g, |a| json!({"prop": prop_out(&Property::from(a.clone()))})), &v["x"])?;
    if let Got::Ok(a) = g {
        let p = Property::from(a);
        let general = if f.is_none() {
            Some(Property::from(ArrayProperty::Properties { property_type: et, properties: es }))
        } else {
            None
        };
        forms_same(&p, general.as_ref(), v)?;
        if v["x"]["b"].is_null() && v["w"].is_object() {
            let mut o = Opts::new(v);
            let g = write_prop(&p, true, &mut o);
            judge("array written", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["w"])?;
        }
    }
    Ok(())
}
fn op_map_new(v: &Value) -> Out {
    let kt = st(&v["kt"]);
    let vt = st(&v["vt"]);
    let af = u32v(&v["af"]);
    let m = kvs_in(&v["kvs"]);
    let g = call(|| Ok(MapProperty::new(kt.clone(), vt.clone(), af, m.clone())));
    judge("map", &outcome(&g, |a| json!({"prop": prop_out(&Property::from(a.clone()))})), &v["x"])?;
    if let Got::Ok(a) = g {
        let p = Property::from(a);
        let general =
            Property::from(MapProperty::Properties { key_type: kt, value_type: vt, allocation_flags: af, value: m });
        forms_same(&p, Some(&general), v)?;
        if v["w"].is_object() {
            let mut o = Opts::new(v);
            let g = write_prop(&p, true, &mut o);
            judge("map written", &outcome(&g, |(b, n)| json!({"b": vb(b), "n": n})), &v["w"])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- equality and hashing
pub fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// a[i] and a[j] must be equal exactly when their classes are
fn op_pair(v: &Value) -> Out {
    let ps: Vec<Property> = list(&v["ps"]).iter().map(prop_in).collect();
    let cl: Vec<u64> = list(&v["cl"]).iter().map(|c| c.as_u64().unwrap()).collect();
    for i in 0..ps.len() {
        sub(i);
        let c = ps[i].clone();
        if c != ps[i] || hash(&c) != hash(&ps[i]) {
            return Err(format!("clone of {i} differs"));
        }
        same("clone", &prop_out(&c), &list(&v["ps"])[i])?;
        for j in 0..ps.len() {
            did();
            let eq = ps[i] == ps[j];
            if eq && hash(&ps[i]) != hash(&ps[j]) {
                return Err(format!("values {i} and {j} are equal but hash differently"));
            }
            if eq != (cl[i] == cl[j]) {
                return Err(format!("values {i} and {j}: equal is {eq}, expected {}", !eq));
            }
            if eq != (ps[j] == ps[i]) {
                return Err(format!("equality of {i} and {j} is not symmetric"));
            }
        }
    }
    // as members of hash collections
    let classes: HashSet<u64> = cl.iter().copied().collect();
    let set: HashSet<Property> = ps.iter().cloned().collect();
    if set.len() != classes.len() {
        return Err(format!("hash set has {} members instead of {}", set.len(), classes.len()));
    }
    let map: indexmap::IndexMap<Property, usize> = ps.iter().cloned().enumerate().map(|(i, p)| (p, i)).collect();
    for p in &ps {
        if !set.contains(p) || !map.contains_key(p) {
            return Err("a member is not found in a hash collection".into());
        }
    }
    Ok(())
}
fn op_hashset(v: &Value) -> Out {
    op_pair(v)
}

// ---------------------------------------------------------------- Palworld
fn op_pal_write(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let gv = v["f"]["gv"].as_str().unwrap();
    let f = file_in(&v["f"]);
    for (i, off) in list(&v["offs"]).iter().enumerate() {
        sub(i);
        let off = off.as_u64().unwrap() as usize;
        for extra in [0usize, 40, 200000] {
            did();
            // destination already holding other data
            let junk: Vec<u8> = (0..off + extra).map(|i| (i * 7 + 3) as u8).collect();
            let mut c = Cursor::new(junk.clone());
            c.set_position(off as u64);
            call(|| f.write(&mut c)).ok(&format!("write at {off}"))?;
            let end = c.position() as usize;
            let data = c.into_inner();
            if data[..off] != junk[..off] {
                return Err(format!("write at {off}: data before it changed"));
            }
            if end < off || end > data.len() {
                return Err(format!("write at {off}: final position {end}"));
            }
            check_container(&data[off..end], gv, &plain).map_err(|e| format!("write at {off}: {e}"))?;
            if data.len() > end && data[end..] != junk[end..] {
                return Err(format!("write at {off}: data behind it changed"));
            }
            let h = hints(&v["h"]);
            let mut c = Cursor::new(&data[..end]);
            c.set_position(off as u64);
            let g = call(|| GvasFile::read_with_hints(&mut c, GameVersion::Palworld, &h)).ok("read back")?;
            same("read back", &file_out(&g), &v["f"])?;
        }
    }
    Ok(())
}
/// containers built from a plain save with one field or the payload changed
fn op_pal_read(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let h = hints(&v["h"]);
    for (i, m) in list(&v["ms"]).iter().enumerate() {
        sub(i);
        let gv = m["gv"].as_str().unwrap();
        let level = m["level"].as_u64().unwrap_or(6) as u32;
        let mut c = container(&plain, gv, level);
        for ed in list(&m["ed"]) {
            // negative positions count from the end
            let a = ed["a"].as_i64().unwrap();
            let at = if a < 0 { (c.len() as i64 + a).max(0) as usize } else { (a as usize).min(c.len()) };
            let del = (ed["d"].as_u64().unwrap() as usize).min(c.len() - at);
            let ins: Vec<u8> = match ed["x"].as_u64() {
                // flip bits
                Some(x) => c[at..at + del].iter().map(|b| b ^ x as u8).collect(),
                None => bytes(&ed["i"]),
            };
            c.splice(at..at + del, ins);
        }
        if m["inner"] == 1 {
            // corrupt the checksum of the inner stream, keep the outer one right
            let mut inner = deflate(&plain, level);
            let n = inner.len();
            inner[n - 1] ^= 1;
            let outer = deflate(&inner, level);
            c.truncate(12);
            c.extend(outer);
        }
        if m["inner"] == 2 {
            let inner = deflate(&plain, level);
            let outer = deflate(&inner[..inner.len() - 3], level);
            c.truncate(12);
            c.extend(outer);
        }
        let what = format!("container {i} {}", m);
        let g = call(|| GvasFile::read_with_hints(&mut Cursor::new(&c), GameVersion::Palworld, &h));
        let mut x = m["x"].clone();
        if m["lax"] == 1 && g.class() == "ok" {
            // the damage may be in bits that mean nothing
            x = json!({"r": "ok", "file": plain_out(&plain, &h, gv)?});
        }
        judge(&what, &outcome(&g, |f| json!({"file": file_out(f)})), &x)?;
        // the same when the source delivers it piecemeal
        if c.len() < 6000 || i % 16 == 0 {
            let chunks = if c.len() < 6000 { vec![3] } else { vec![c.len() / 2, 1] };
            let mut s = Stream::new(c.clone(), 0, Plan { chunks, ..Plan::default() });
            let g = call(|| GvasFile::read_with_hints(&mut s, GameVersion::Palworld, &h));
            if m["lax"] == 1 && g.class() == "err" {
                continue;
            }
            judge(&format!("{what}, in pieces"), &outcome(&g, |f| json!({"file": file_out(f)})), &x)?;
        }
    }
    Ok(())
}
fn plain_out(plain: &[u8], h: &Hints, gv: &str) -> Result<Value, String> {
    let mut v = file_out(&read_file(plain, h, "Default").ok("read")?);
    v["gv"] = json!(gv);
    Ok(v)
}

// ---------------------------------------------------------------- I/O schedules
pub fn schedules() -> Vec<Plan> {
    let mut out = vec![];
    for chunks in [vec![1], vec![2], vec![3], vec![4], vec![7], vec![1, 2, 5, 3], vec![8, 1], vec![64, 1, 1000], vec![4096]] {
        for interrupt in [0, 1, 3] {
            out.push(Plan { chunks: chunks.clone(), interrupt, ..Plan::default() });
        }
    }
    out.push(Plan { interrupt: 1, ..Plan::default() });
    out.push(Plan { interrupt: 2, ..Plan::default() });
    out
}
fn points(n: usize, dense: usize) -> Vec<usize> {
    // all points of a short range, the ends and a stride of a long one
    if n <= dense {
        return (0..n).collect();
    }
    let step = n / (dense / 2) + 1;
    (0..n).filter(|i| *i < dense / 4 || n - i <= dense / 4 || i % step == 0).collect()
}
fn op_io_write(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let gv = v["f"]["gv"].as_str().unwrap();
    let f = file_in(&v["f"]);
    let ok = |data: &[u8]| {
        if gv == "Default" { same_bytes("file", data, &plain) } else { check_container(data, gv, &plain) }
    };
    let mut s = Stream::new(vec![], 0, Plan::default());
    call(|| f.write(&mut s)).ok("write")?;
    ok(&s.data)?;
    let total = s.data.len();
    let ops = s.ops.clone();
    for (i, plan) in schedules().into_iter().enumerate() {
        sub(i);
        did();
        let interrupts = plan.interrupt > 0;
        for (off, far) in [0usize, 5].into_iter().flat_map(|o| FAR.map(|f| (o, f))) {
            let mut s = Stream::new(vec![9; off], off, plan.clone()).far(far);
            match call(|| f.write(&mut s)) {
                Got::Ok(()) => ok(&s.data[off..]).map_err(|e| format!("schedule {i}: {e}"))?,
                Got::Err(e) if !interrupts || gv == "Default" => return Err(format!("schedule {i}: error {e}")),
                Got::Err(_) => {}
                Got::Panic(p) => return Err(format!("schedule {i}: {p}")),
            }
        }
    }
    // a destination that takes only so much
    for n in points(total, 240) {
        sub(1000 + n);
        for (zero, chunks) in [(false, vec![]), (true, vec![]), (false, vec![3])] {
            did();
            let mut s = Stream::new(vec![], 0, Plan { limit: Some(n), zero, chunks, ..Plan::default() });
            match call(|| f.write(&mut s)) {
                Got::Ok(()) => return Err(format!("success although the destination took only {n} of {total} bytes")),
                Got::Panic(p) => return Err(format!("limit {n}: {p}")),
                Got::Err(_) => {}
            }
        }
    }
    // each operation of the undisturbed run failing once
    for n in points(ops.len(), 400) {
        sub(100000 + n);
        did();
        let mut s = Stream::new(vec![], 0, Plan { fail_op: Some(n), ..Plan::default() });
        match call(|| f.write(&mut s)) {
            Got::Ok(()) => return Err(format!("success although operation {n} ({:?}) failed", ops[n])),
            Got::Panic(p) => return Err(format!("failing operation {n}: {p}")),
            Got::Err(_) => {}
        }
    }
    Ok(())
}
/// a script of answers given by the specification, starting at several calls of the run
fn op_io_script(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let gv = v["f"]["gv"].as_str().unwrap();
    let f = file_in(&v["f"]);
    let h = hints(&v["h"]);
    let script: Vec<i64> = list(&v["as"]).iter().map(|x| x.as_i64().unwrap()).collect();
    let fine = v["fine"] == 1;
    let mut s = Stream::new(vec![], 0, Plan::default());
    call(|| f.write(&mut s)).ok("write")?;
    let starts = |n: usize| {
        let mut l = vec![0, 1, 2, 3, n / 3, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)];
        l.sort();
        l.dedup();
        l
    };
    for at in starts(s.asked) {
        sub(at);
        did();
        let mut s = Stream::new(vec![], 0, Plan { script: script.clone(), at, ..Plan::default() });
        match call(|| f.write(&mut s)) {
            Got::Ok(()) if s.hurt => return Err(format!("write reports success although the script {script:?} from call {at} on lost data")),
            Got::Ok(()) if gv == "Default" => same_bytes(&format!("script {script:?} from call {at}: file"), &s.data, &plain)?,
            Got::Ok(()) => check_container(&s.data, gv, &plain).map_err(|e| format!("script {script:?} from call {at}: {e}"))?,
            Got::Err(e) if !s.hurt && !(s.interrupted && gv != "Default") => return Err(format!("write, script {script:?} from call {at}: error {e}")),
            Got::Err(_) if fine && !s.interrupted => return Err(format!("write, script {script:?} from call {at}: error")),
            Got::Err(_) => {}
            Got::Panic(p) => return Err(p),
        }
    }
    let b = wrap(&plain, gv);
    let read = |s: &mut Stream| call(|| GvasFile::read_with_hints(s, gver(gv), &h));
    let mut s = Stream::new(b.clone(), 0, Plan::default());
    read(&mut s).ok("read")?;
    for at in starts(s.asked) {
        sub(1000 + at);
        did();
        let mut s = Stream::new(b.clone(), 0, Plan { script: script.clone(), at, ..Plan::default() });
        match read(&mut s) {
            Got::Ok(_) if s.hurt => return Err(format!("read reports success although the script {script:?} from call {at} on lost data")),
            Got::Ok(g) => same(&format!("read, script {script:?} from call {at}"), &file_out(&g), &v["f"])?,
            Got::Err(e) if !s.hurt => return Err(format!("read, script {script:?} from call {at}: error {e}")),
            Got::Err(_) => {}
            Got::Panic(p) => return Err(p),
        }
    }
    Ok(())
}
fn op_io_read(v: &Value) -> Out {
    let plain = bytes(&v["b"]);
    let h = hints(&v["h"]);
    let gv = v["f"]["gv"].as_str().unwrap();
    let b = wrap(&plain, gv);
    let end = v["end"].as_u64().unwrap() as usize;
    let exp = &v["f"];
    let read = |s: &mut Stream| call(|| GvasFile::read_with_hints(s, gver(gv), &h));
    let mut s = Stream::new(b.clone(), 0, Plan::default());
    let f = read(&mut s).ok("read")?;
    same("read", &file_out(&f), exp)?;
    let ops = s.ops.clone();
    let first = f;
    for (i, plan) in schedules().into_iter().enumerate() {
        sub(i);
        for (off, far) in [(0usize, 0), (1, 0), (333, 0), (0, FAR[1]), (1, FAR[2])] {
            did();
            let mut data: Vec<u8> = (0..off).map(|i| i as u8).collect();
            data.extend(&b);
            let mut s = Stream::new(data, off, plan.clone()).far(far);
            match read(&mut s) {
                Got::Ok(f) => {
                    if f != first {
                        return Err(format!("schedule {i} at offset {off}: a different save was read"));
                    }
                    if i % 9 == 0 {
                        same("read", &file_out(&f), exp)?;
                    }
                }
                Got::Err(e) => return Err(format!("schedule {i} at offset {off}: error {e}")),
                Got::Panic(p) => return Err(format!("schedule {i} at offset {off}: {p}")),
            }
        }
    }
    // a source that fails after n bytes: before the end marker the save cannot be complete
    let last = if gv == "Default" { end } else { b.len().saturating_sub(4) };
    for n in points(last, 240) {
        sub(1000 + n);
        for chunks in [vec![], vec![3]] {
            did();
            let mut s = Stream::new(b.clone(), 0, Plan { limit: Some(n), chunks, ..Plan::default() });
            match read(&mut s) {
                Got::Ok(_) => return Err(format!("success although the source failed after {n} of {} bytes", b.len())),
                Got::Panic(p) => return Err(format!("source failing after {n}: {p}")),
                Got::Err(_) => {}
            }
        }
    }
    for n in points(ops.len(), 400) {
        sub(100000 + n);
        did();
        let mut s = Stream::new(b.clone(), 0, Plan { fail_op: Some(n), ..Plan::default() });
        match read(&mut s) {
            Got::Ok(_) => return Err(format!("success although operation {n} ({:?}) failed", ops[n])),
            Got::Panic(p) => return Err(format!("failing operation {n}: {p}")),
            Got::Err(_) => {}
        }
    }
    Ok(())
}
/// one property written to and read from scheduled streams
fn op_io_prop(v: &Value) -> Out {
    let exp = bytes(&v["b"]);
    let tagged = v["tagged"] == true;
    let p = prop_in(&v["prop"]);
    let ty = st(&v["ty"]);
    let sug = v["sug"].as_i64().unwrap_or(-1);
    let sug = if sug < 0 { None } else { Some(sug as u32) };
    let skip = v["skip"].as_u64().unwrap_or(0) as usize;
    let mut o = Opts::new(v);
    let mut s = Stream::new(vec![], 0, Plan::default());
    call(|| p.write(&mut s, tagged, &mut o.get())).ok("write")?;
    same_bytes("property", &s.data, &exp)?;
    let wops = s.ops.clone();
    let mut s = Stream::new(exp.clone(), skip, Plan::default());
    let q = call(|| Property::new(&mut s, &ty, tagged, &mut o.get(), sug)).ok("read")?;
    same("property", &prop_out(&q), &v["prop"])?;
    let rops = s.ops.clone();
    for (i, plan) in schedules().into_iter().enumerate() {
        sub(i);
        did();
        let mut s = Stream::new(vec![], 0, plan.clone()).far(FAR[(i + 1) % 3]);
        let n = call(|| p.write(&mut s, tagged, &mut o.get())).ok(&format!("write, schedule {i}"))?;
        same_bytes(&format!("property, schedule {i}"), &s.data, &exp)?;
        if n != exp.len() {
            return Err(format!("schedule {i}: reported {n} bytes, wrote {}", exp.len()));
        }
        let mut data = vec![7u8; 11];
        data.extend(&exp);
        let mut s = Stream::new(data, 11 + skip, plan.clone()).far(FAR[i % 3]);
        let r = call(|| Property::new(&mut s, &ty, tagged, &mut o.get(), sug)).ok(&format!("read, schedule {i}"))?;
        if r != q {
            return Err(format!("schedule {i}: a different property was read"));
        }
        if s.pos != 11 + exp.len() {
            return Err(format!("schedule {i}: reading ended at {} of {}", s.pos - 11, exp.len()));
        }
    }
    for n in points(exp.len(), 200) {
        sub(1000 + n);
        for zero in [false, true] {
            did();
            let mut s = Stream::new(vec![], 0, Plan { limit: Some(n), zero, ..Plan::default() });
            if let Got::Ok(_) = call(|| p.write(&mut s, tagged, &mut o.get())) {
                return Err(format!("success although the destination took only {n} of {} bytes", exp.len()));
            }
        }
        if n >= skip {
            let mut s = Stream::new(exp.clone(), skip, Plan { limit: Some(n - skip), ..Plan::default() });
            if let Got::Ok(_) = call(|| Property::new(&mut s, &ty, tagged, &mut o.get(), sug)) {
                return Err(format!("success although the source failed after {n} of {} bytes", exp.len()));
            }
        }
    }
    for n in points(wops.len(), 300) {
        sub(100000 + n);
        did();
        let mut s = Stream::new(vec![], 0, Plan { fail_op: Some(n), ..Plan::default() });
        if let Got::Ok(_) = call(|| p.write(&mut s, tagged, &mut o.get())) {
            return Err(format!("success although write operation {n} ({:?}) failed", wops[n]));
        }
    }
    for n in points(rops.len(), 300) {
        sub(200000 + n);
        did();
        let mut s = Stream::new(exp.clone(), skip, Plan { fail_op: Some(n), ..Plan::default() });
        if let Got::Ok(_) = call(|| Property::new(&mut s, &ty, tagged, &mut o.get(), sug)) {
            return Err(format!("success although read operation {n} ({:?}) failed", rops[n]));
        }
    }
    Ok(())
}
