//! Random sessions with the library, recorded as traces for spec/Trace.tla.
use crate::{conv::*, ctor, jsonx, ops::*, parts, rnd::*, session, streams::*, versions};
use gvas::{
    GvasFile,
    properties::{Property, PropertyTrait, array_property::ArrayProperty, map_property::MapProperty},
    types::Guid,
    custom_version::{CustomVersionTrait, FEditorObjectVersion, FUE5ReleaseStreamObjectVersion},
    engine_version::FEngineVersion,
};
use serde_json::{Value, json};
use std::{
    fs::File,
    io::{BufRead, BufReader, Cursor, Write},
    process::{Command, Stdio},
    sync::{Arc, Barrier},
    time::{Duration, Instant},
};

/// what is inside a container, if it is a proper one
fn open(c: &[u8], gv: &str) -> Result<Vec<u8>, String> {
    if gv == "Default" {
        return Ok(c.to_vec());
    }
    if c.len() < 12 {
        return Err("short container".into());
    }
    let plain = match gv {
        "None" => c[12..].to_vec(),
        "Zlib" => inflate(&c[12..])?.0,
        _ => inflate(&inflate(&c[12..])?.0)?.0,
    };
    check_container(c, gv, &plain)?;
    Ok(plain)
}

struct Rec {
    r: R,
    c: Ctx,
    mem: Option<GvasFile>,
    disk: Vec<u8>,
    gv: String,
    hints: Vec<Value>,
    ev: Vec<Value>,
}
type Paths = Vec<(Vec<Value>, Value)>;
fn walk(p: &Value, at: &[Value], out: &mut Paths) {
    out.push((at.to_vec(), p.clone()));
    let sub = |s: Value, q: &Value, out: &mut Paths| {
        let mut a = at.to_vec();
        a.push(s);
        walk(q, &a, out);
    };
    match p["k"].as_str().unwrap() {
        "Struct" | "SV" if p["sv"]["k"] == "Custom" => {
            for f in list(&p["sv"]["fs"]) {
                for (i, q) in list(&f[1]).iter().enumerate() {
                    sub(json!(["field", f[0], i]), q, out);
                }
            }
        }
        "Set" => list(&p["es"]).iter().enumerate().for_each(|(i, q)| sub(json!(["elem", [], i]), q, out)),
        "Array" if p["w"] == "Properties" || p["w"] == "Structs" => {
            list(&p["es"]).iter().enumerate().for_each(|(i, q)| sub(json!(["elem", [], i]), q, out))
        }
        "Map" if p["w"].as_str().unwrap().ends_with("Property") || p["w"] == "Properties" => {
            list(&p["kvs"]).iter().enumerate().for_each(|(i, q)| sub(json!(["mval", [], i]), &q[1], out))
        }
        _ => {}
    }
}
fn kind_of_type(t: &Value) -> Option<String> {
    let t = st(t);
    if t == "StructProperty" {
        return Some("Struct".into());
    }
    LEAVES.iter().find(|k| type_of(k) == t).map(|k| k.to_string())
}
impl Rec {
    fn state(&self) -> Value {
        file_out(self.mem.as_ref().unwrap())
    }
    fn new_file(&mut self, f: Value) {
        self.mem = Some(file_in(&f));
        self.ev.push(json!({"a": "new", "f": f}));
    }
    fn save(&mut self) {
        let f = self.mem.as_ref().unwrap();
        let gv = gv_out(f.deserialized_game_version).to_string();
        let e = match write_file(f) {
            Got::Ok(c) => match open(&c, &gv) {
                Ok(b) => {
                    self.hints = hints_of(&file_out(f));
                    self.disk = c;
                    self.gv = gv;
                    json!({"a": "save", "r": "ok", "b": vb(&b)})
                }
                Err(e) => json!({"a": "save", "r": "container", "what": e}),
            },
            Got::Err(e) => json!({"a": "save", "r": "err", "what": e.to_string()}),
            Got::Panic(p) => json!({"a": "save", "r": "panic", "what": p}),
        };
        self.ev.push(e);
    }
    fn load(&mut self, h: Vec<Value>) {
        let e = match read_file(&self.disk, &hints(&Value::Array(h.clone())), &self.gv) {
            Got::Ok(f) => {
                let v = file_out(&f);
                self.mem = Some(f);
                json!({"a": "load", "h": h, "r": "ok", "f": v})
            }
            Got::Err(e) => json!({"a": "load", "h": h, "r": "err", "e": err_out(&e)}),
            Got::Panic(p) => json!({"a": "load", "h": h, "r": "panic", "what": p}),
        };
        self.ev.push(e);
    }
    /// a schedule: small pieces, interruptions
    fn plan(&mut self) -> Plan {
        let r = &mut self.r;
        let chunks = (0..r.below(5)).map(|_| 1 + if r.chance(3, 4) { r.below(12) } else { r.below(5000) }).collect();
        Plan { chunks, interrupt: if r.chance(1, 2) { r.below(6) } else { 0 }, ..Plan::default() }
    }
    fn save_slowly(&mut self) {
        let f = self.mem.as_ref().unwrap().clone();
        let gv = gv_out(f.deserialized_game_version).to_string();
        let mut plan = self.plan();
        if gv != "Default" {
            // an interrupted compressed save may be refused
            plan.interrupt = 0;
        }
        let off = self.r.pick(&[0usize, 0, 1, 12, 333]);
        let mut s = Stream::new(vec![9; off], off, plan);
        let e = match call(|| f.write(&mut s)) {
            Got::Ok(()) => match open(&s.data[off..], &gv) {
                Ok(b) => {
                    self.hints = hints_of(&file_out(&f));
                    self.disk = s.data[off..].to_vec();
                    self.gv = gv;
                    json!({"a": "save", "r": "ok", "b": vb(&b), "slow": 1})
                }
                Err(e) => json!({"a": "save", "r": "container", "what": e}),
            },
            Got::Err(e) => json!({"a": "save", "r": "err", "what": e.to_string()}),
            Got::Panic(p) => json!({"a": "save", "r": "panic", "what": p}),
        };
        self.ev.push(e);
    }
    fn load_slowly(&mut self, h: Vec<Value>) {
        let off = self.r.pick(&[0usize, 0, 1, 12, 333]);
        let mut d = vec![9; off];
        d.extend(&self.disk);
        let mut s = Stream::new(d, off, self.plan());
        let hs = hints(&Value::Array(h.clone()));
        let e = match call(|| GvasFile::read_with_hints(&mut s, gver(&self.gv), &hs)) {
            Got::Ok(f) => {
                let v = file_out(&f);
                self.mem = Some(f);
                json!({"a": "load", "h": h, "r": "ok", "f": v, "slow": 1})
            }
            Got::Err(e) => json!({"a": "load", "h": h, "r": "err", "e": err_out(&e)}),
            Got::Panic(p) => json!({"a": "load", "h": h, "r": "panic", "what": p}),
        };
        self.ev.push(e);
    }
    /// the destination breaks down while saving: after some bytes, or at some operation
    fn save_broken(&mut self) {
        let f = self.mem.as_ref().unwrap().clone();
        let mut s = Stream::new(vec![], 0, Plan::default());
        let Got::Ok(()) = call(|| f.write(&mut s)) else { return self.save() };
        let mut plan = self.plan();
        plan.interrupt = 0;
        if self.r.chance(1, 2) {
            plan.limit = Some(self.r.below(s.data.len()));
            plan.zero = self.r.chance(1, 2);
        } else {
            plan.chunks = vec![];
            plan.fail_op = Some(self.r.below(s.ops.len()));
        }
        let mut s = Stream::new(vec![], 0, plan);
        self.ev.push(match call(|| f.write(&mut s)) {
            Got::Ok(()) => json!({"a": "savefail", "r": "ok"}),
            Got::Err(e) => json!({"a": "savefail", "r": "err", "what": e.to_string()}),
            Got::Panic(p) => json!({"a": "savefail", "r": "panic", "what": p}),
        });
    }
    fn load_broken(&mut self, h: &[Value]) {
        let hs = hints(&Value::Array(h.to_vec()));
        let mut s = Stream::new(self.disk.clone(), 0, Plan::default());
        let Got::Ok(_) = call(|| GvasFile::read_with_hints(&mut s, gver(&self.gv), &hs)) else { return self.load(h.to_vec()) };
        let mut plan = self.plan();
        if self.r.chance(1, 2) {
            plan.limit = Some(self.r.below(self.disk.len() - 4));
            plan.zero = self.r.chance(1, 2);
        } else {
            plan.chunks = vec![];
            plan.interrupt = 0;
            let io: Vec<usize> = (0..s.ops.len()).filter(|i| s.ops[*i] == Kind::Io).collect();
            plan.fail_op = Some(io[self.r.below(io.len())]);
        }
        let mut s = Stream::new(self.disk.clone(), 0, plan);
        self.ev.push(match call(|| GvasFile::read_with_hints(&mut s, gver(&self.gv), &hs)) {
            Got::Ok(_) => json!({"a": "loadfail", "r": "ok"}),
            Got::Err(e) => json!({"a": "loadfail", "r": "err", "what": e.to_string()}),
            Got::Panic(p) => json!({"a": "loadfail", "r": "panic", "what": p}),
        });
    }
    fn count(&mut self) {
        let f = self.mem.as_ref().unwrap();
        let mut o = Opts { hints: Default::default(), stack: vec![], cvs: f.header.get_custom_versions().clone() };
        let mut go = || -> Result<Value, String> {
            let mut s = Stream::new(vec![], 0, Plan { chunks: vec![5, 1], ..Plan::default() });
            let n = call(|| f.header.write(&mut s)).ok("header")?;
            let mut ps = vec![];
            for p in f.properties.0.values() {
                let mut one = |tagged: bool| {
                    let mut s = Stream::new(vec![], 0, Plan { chunks: vec![3, 8], ..Plan::default() });
                    call(|| p.write(&mut s, tagged, &mut o.get())).ok("property")
                };
                ps.push(json!([one(true)?, one(false)?]));
                part_counts(p, &mut o)?;
            }
            Ok(json!({"a": "count", "r": "ok", "h": n, "ps": ps}))
        };
        let e = go().unwrap_or_else(|w| json!({"a": "count", "r": "wrong", "what": w}));
        self.ev.push(e);
    }
    /// compare a value with one that differs a little, or in order only
    fn compare(&mut self, x: &Value) {
        let (r, a) = (&mut self.r, prop_in(x));
        let mut y = x.clone();
        if r.chance(1, 2) {
            reorder(r, &mut y);
        }
        for _ in 0..r.below(2) {
            nudge(r, &mut y);
        }
        let b = prop_in(&y);
        let y = prop_out(&b);
        let x = prop_out(&a);
        self.ev.push(json!({"a": "eq", "r": "ok", "x": x, "y": y, "eq": (a == b) as u8, "hash": (hash(&a) == hash(&b)) as u8}));
    }
    /// a property written and read on its own
    fn part(&mut self) {
        let s = self.state();
        let mut ps: Paths = vec![];
        for p in list(&s["ps"]) {
            walk(&p[1], &[json!(["top", p[0], 0])], &mut ps);
        }
        if ps.is_empty() {
            return;
        }
        let (path, x) = ps[self.r.below(ps.len())].clone();
        let tagged = path.last().unwrap()[0] == "top" || path.last().unwrap()[0] == "field";
        let mut o = Opts { hints: Default::default(), stack: vec![], cvs: cvs_in(&s["hdr"]["cvs"]) };
        let p = prop_in(&x);
        let inner = self.r.chance(1, 2);
        let g = call(|| {
            let mut c = Cursor::new(vec![]);
            let n = if inner { parts::write_inner(&p, &mut c, tagged, false, &mut o)? } else { p.write(&mut c, tagged, &mut o.get())? };
            Ok((c.into_inner(), n))
        });
        let t = tagged as u8;
        let w = match g {
            Got::Ok((w, n)) => {
                self.ev.push(json!({"a": "partsave", "x": x, "tagged": t, "r": "ok", "b": vb(&w), "n": n}));
                w
            }
            Got::Err(e) => return self.ev.push(json!({"a": "partsave", "x": x, "tagged": t, "r": "err", "what": e.to_string()})),
            Got::Panic(e) => return self.ev.push(json!({"a": "partsave", "x": x, "tagged": t, "r": "panic", "what": e})),
        };
        let r = &mut self.r;
        let ty = name_of(&x);
        let skip = if tagged { ty.len() + 5 } else { 0 };
        if tagged && x["k"] == "Unknown" && !ty.is_ascii() {
            return;
        }
        let mut b = w[skip..].to_vec();
        let sug = match r.below(4) {
            _ if x["k"] == "Unknown" && !tagged => b.len() as i64,
            _ if x["k"] == "ByteNs" && !tagged => b.len() as i64 + 1,
            0 => b.len() as i64,
            _ => -1,
        };
        match r.below(4) {
            0 if !b.is_empty() => b.truncate(r.below(b.len())),
            1 if !b.is_empty() => {
                let at = r.below(b.len());
                b[at] = r.pick(&[0, 1, 2, 3, 4, 5, 8, 127, 128, 254, 255]);
            }
            _ => b.extend((0..r.below(9)).map(|_| r.below(256) as u8)),
        }
        let off = r.below(4);
        b.splice(0..0, vec![0xaa; off]);
        let base: Vec<String> = (0..r.below(3)).map(|i| ["a", "b.c"][i].to_string()).collect();
        let mut h = vec![];
        let at: String = base.iter().map(|x| format!("{x}.")).collect();
        if x["k"] == "SV" {
            hints_e(&x, at.trim_end_matches('.'), &mut h);
            if at.is_empty() {
                h.iter_mut().for_each(|e| e[0] = vs(&st(&e[0])[1..]));
            }
        } else {
            hints_p(&x, &format!("{at}{ty}"), &mut h);
        }
        o.hints = hints(&Value::Array(h.clone()));
        o.stack = base.clone();
        let far = r.pick(&parts::bases(b.len(), off as u64));
        let mut c = parts::Far::new(&b, off as u64, far);
        let mut way = r.below(3);
        let g = call(|| {
            if way < 2 {
                o.stack.push(ty.clone());
                let g = parts::typed(&ty, tagged, &mut c, &mut o, way);
                o.stack.pop();
                if let Some(g) = g {
                    return g;
                }
                way = 2;
            }
            Property::new(&mut c, &ty, tagged, &mut o.get(), (sug >= 0).then_some(sug as u32))
        });
        let mut e = json!({"a": "partload", "b": vb(&b), "off": off, "path": base.iter().map(|x| vs(x)).collect::<Vec<_>>(), "ty": vs(&ty), "tagged": t, "far": far > 0,
                           "sug": if way == 2 { sug } else { -1 }, "h": h, "way": way, "left": o.stack.iter().map(|x| vs(x)).collect::<Vec<_>>()});
        match g {
            Got::Ok(p) => {
                e["r"] = json!("ok");
                e["v"] = prop_out(&p);
                e["p"] = json!(c.position());
            }
            Got::Err(x) => {
                e["r"] = json!("err");
                e["e"] = c.near(json!({"e": err_out(&x)}))["e"].take();
            }
            Got::Panic(_) => e["r"] = json!("panic"),
        }
        self.ev.push(e);
    }
    fn make(&mut self, x: &Value) {
        let what = match guard(|| ctor::convert(&prop_in(x))) {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(e) => Some(e),
        };
        if let Some(e) = what {
            self.ev.push(json!({"a": "make", "f": "convert", "args": [], "x": x, "r": "wrong", "what": e}));
        }
        for (f, a) in ctor::ways(x) {
            let mut e = json!({"a": "make", "f": f, "args": a});
            match guard(|| ctor::make(f, &a)) {
                Ok(Ok(p)) => {
                    e["r"] = json!("ok");
                    e["v"] = prop_out(&p);
                }
                Ok(Err(_)) => e["r"] = json!("err"),
                Err(_) => e["r"] = json!("panic"),
            }
            self.ev.push(e);
        }
    }
    fn version(&mut self) {
        let r = &mut self.r;
        if r.chance(1, 2) {
            let e = json!({"maj": if r.chance(3, 4) { vb(&[r.pick(&[4, 4, 5, 3]), 0]) } else { num(r, 2) },
                           "min": if r.chance(3, 4) { vb(&[r.below(30) as u8, 0]) } else { num(r, 2) }, "pat": num(r, 2), "cl": num(r, 4), "br": string(r, &self.c, false)});
            let x = FEngineVersion::new(u16v(&e["maj"]), u16v(&e["min"]), u16v(&e["pat"]), u32v(&e["cl"]), st(&e["br"]));
            self.ev.push(json!({"a": "engine", "e": e, "r": "ok", "name": format!("{:?}", x.get_version()), "s": vs(&x.to_string())}));
            return;
        }
        let f = file_out(self.mem.as_ref().unwrap());
        let mut cvs = list(&f["hdr"]["cvs"]).to_vec();
        let stream = r.pick(&["editor", "release"]);
        let key = if stream == "editor" { FEditorObjectVersion::GUID } else { FUE5ReleaseStreamObjectVersion::GUID };
        let top = if stream == "editor" { 41 } else { 52 };
        if r.chance(2, 3) {
            let v = if r.chance(3, 4) { vb(&[r.below(top + 2) as u8, 0, 0, 0]) } else { num(r, 4) };
            cvs.retain(|e| guid(&e[0]) != key);
            cvs.insert(r.below(cvs.len() + 1), json!([vb(&key.0), v]));
        }
        if r.chance(1, 3) {
            let mut g = key;
            g.0[r.below(16)] ^= 1 << r.below(8);
            cvs.insert(r.below(cvs.len() + 1), json!([vb(&g.0), num(r, 4)]));
        }
        let asked: Vec<usize> = (0..4).map(|_| r.below(top)).collect();
        let mut e = match guard(|| versions::answers(stream, &json!(cvs), &asked)) {
            Ok(v) => v,
            Err(_) => json!({}),
        };
        e["r"] = json!(if e["v"].is_null() { "panic" } else { "ok" });
        e["a"] = json!("version");
        e["s"] = json!(stream);
        e["cvs"] = json!(cvs);
        e["asked"] = json!(asked);
        self.ev.push(e);
    }
    fn build(&mut self) {
        let (r, c) = (&mut self.r, &self.c);
        if r.chance(1, 2) {
            let k = if r.chance(1, 5) { "Struct" } else { r.pick(&LEAVES) };
            let mut es: Vec<Value> = (0..r.below(7)).map(|_| element(r, c, k, 2, 2)).collect();
            if !es.is_empty() && r.chance(1, 2) {
                // one that does not fit in
                let at = r.below(es.len());
                let tagged = r.chance(2, 3);
                let k = if r.chance(2, 3) { k } else { r.pick(&LEAVES) };
                es[at] = if k == "Struct" { prop(r, c, 2) } else { leaf(r, c, k, tagged, 2) };
            }
            let et = if r.chance(9, 10) { type_of(k) } else { type_of(r.pick(&LEAVES)) };
            let f = if (k == "Struct") == r.chance(9, 10) { json!([[string(r, c, false), vs("T"), num(r, 16)]]) } else { json!([]) };
            let info = list(&f).first().map(|f| (st(&f[0]), st(&f[1]), guid(&f[2])));
            let args: Vec<Property> = es.iter().map(prop_in).collect();
            let mut e = json!({"a": "array", "et": vs(&et), "f": f, "es": es});
            match call(|| ArrayProperty::new(et, info, args)) {
                Got::Ok(a) => {
                    e["v"] = prop_out(&Property::from(a));
                    e["r"] = json!("ok");
                }
                Got::Err(_) => e["r"] = json!("err"),
                Got::Panic(_) => e["r"] = json!("panic"),
            }
            self.ev.push(e);
        } else {
            let kk = if r.chance(3, 4) { r.pick(&["Enum", "Name", "Str"]) } else { r.pick(&KEYS) };
            let vk = r.pick(&["Bool", "Int", "Str", "Float", "Name", "Text"]);
            let mut kvs: Vec<Value> = vec![];
            for _ in 0..r.below(7) {
                let odd = r.chance(1, 6);
                let key = if kk == "Struct" { element(r, c, kk, 0, 2) } else { leaf(r, c, kk, odd, 2) };
                let vk = if r.chance(1, 12) { r.pick(&LEAVES) } else { vk };
                let odd = r.chance(1, 6);
                if !kvs.iter().any(|e| prop_in(&e[0]) == prop_in(&key)) {
                    kvs.push(json!([key, leaf(r, c, vk, odd, 2)]));
                }
            }
            let (kt, vt) = (type_of(kk), if r.chance(9, 10) { type_of(vk) } else { type_of(r.pick(&LEAVES)) });
            let af = if r.chance(2, 3) { vb(&[0; 4]) } else { num(r, 4) };
            let mut e = json!({"a": "map", "kt": vs(&kt), "vt": vs(&vt), "af": af, "kvs": kvs});
            let m = kvs_in(&e["kvs"]);
            match call(|| Ok(MapProperty::new(kt, vt, u32v(&af), m))) {
                Got::Ok(a) => {
                    e["v"] = prop_out(&Property::from(a));
                    e["r"] = json!("ok");
                }
                _ => e["r"] = json!("panic"),
            }
            self.ev.push(e);
        }
    }
    fn guid(&mut self) {
        let r = &mut self.r;
        let mut b: [u8; 16] = std::array::from_fn(|_| r.next() as u8);
        for _ in 0..r.below(3) {
            // runs of zeros
            let at = r.below(16);
            let n = r.below(17 - at);
            b[at..at + n].fill(r.pick(&[0, 0, 0x0f, 0xf0, 255]));
        }
        let t = Guid(b).to_string();
        self.ev.push(json!({"a": "guidtext", "r": "ok", "g": vb(&b), "s": vs(&t)}));
        let mut s: Vec<char> = t.chars().collect();
        for _ in 0..r.below(3) {
            let c = r.pick(&['-', ' ', '{', '}', '0', 'f', 'F', 'g', 'G', '+', '\u{a0}', '\u{e9}', '\0', '_', 'x']);
            let at = r.below(s.len() + 1);
            match r.below(3) {
                0 => s.insert(at, c),
                1 if at < s.len() => s[at] = c,
                _ if at < s.len() => drop(s.remove(at)),
                _ => {}
            }
        }
        if r.chance(1, 3) {
            s.retain(|c| *c != '-');
        }
        if r.chance(1, 3) {
            s.iter_mut().for_each(|c| *c = c.to_ascii_lowercase());
        }
        if r.chance(1, 4) {
            s.insert(0, '{');
            s.push('}');
        }
        if r.chance(1, 6) {
            s.insert(0, ' ');
            s.push('\n');
        }
        let s: String = s.into_iter().collect();
        self.ev.push(match guard(|| s.parse::<Guid>()) {
            Ok(Ok(g)) => json!({"a": "guidparse", "s": vs(&s), "r": "ok", "g": vb(&g.0)}),
            Ok(Err(_)) => json!({"a": "guidparse", "s": vs(&s), "r": "err"}),
            Err(_) => json!({"a": "guidparse", "s": vs(&s), "r": "panic"}),
        });
    }
    fn json(&mut self) {
        let e = match jsonx::export(self.mem.as_ref().unwrap()).and_then(|t| jsonx::import(&t)) {
            Ok(f) => {
                let v = file_out(&f);
                self.mem = Some(f);
                json!({"a": "json", "r": "ok", "f": v})
            }
            Err(e) => json!({"a": "json", "r": "err", "what": e}),
        };
        self.ev.push(e);
    }
    fn damage(&mut self, cut: bool) {
        let mut b = open(&self.disk, &self.gv).unwrap();
        let n = b.len();
        let r = &mut self.r;
        if cut {
            b.truncate(r.below(n));
        } else {
            for _ in 0..1 + r.below(2) {
                let at = r.below(b.len());
                match r.below(10) {
                    0 => b[at] ^= 1 << r.below(8),
                    1 => b[at] = r.below(256) as u8,
                    2 => b[at] = r.pick(&[0, 1, 2, 127, 128, 254, 255]),
                    3 => drop(b.remove(at)),
                    4 => b.insert(at, r.below(256) as u8),
                    5 => {
                        // repeat a stretch
                        let m = 1 + r.below((b.len() - at).min(60));
                        let x = b[at..at + m].to_vec();
                        b.splice(at..at, x);
                    }
                    6 => {
                        let m = 1 + r.below((b.len() - at).min(60));
                        b.drain(at..at + m);
                    }
                    7 | 8 => {
                        // another string, with its own length and terminator
                        let all = strings(&b);
                        if !all.is_empty() {
                            let (from, to) = all[r.below(all.len())];
                            let (x, y) = all[r.below(all.len())];
                            let new = match r.below(3) {
                                0 => b[x..y].to_vec(),
                                _ => plain(r.pick(&["None", "", "StructProperty", "IntProperty", "ByteProperty", "MapProperty", "SetProperty", "ArrayProperty", "BoolProperty", "TextProperty", "NameProperty", "StrProperty", "Vector", "Quat", "Guid", "DateTime", "GameplayTagContainer", "Widget", "A"])),
                            };
                            b.splice(from..to, new);
                        }
                    }
                    _ => {
                        let v = r.pick(&[0u32, 1, 2, 3, 4, 5, 8, 16, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 1000]);
                        for (i, x) in v.to_le_bytes().iter().enumerate() {
                            if at + i < b.len() {
                                b[at + i] = *x;
                            }
                        }
                    }
                }
                if b.is_empty() {
                    b.push(0);
                }
            }
        }
        self.disk = wrap(&b, &self.gv);
        self.ev.push(json!({"a": "damage", "b": vb(&b)}));
    }
    /// duplicate, drop or swap whole properties on disk, as another program might have written them
    fn shuffle(&mut self) {
        let b = open(&self.disk, &self.gv).unwrap();
        let f = self.state();
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut h = f.clone();
        h["ps"] = json!([]);
        let cut = |w: Got<Vec<u8>>| w.ok("part").ok();
        let Some(mut head) = cut(write_file(&file_in(&h))) else { return };
        if gv_out(self.mem.as_ref().unwrap().deserialized_game_version) != "Default" {
            return;
        }
        head.truncate(head.len() - 13);
        for p in list(&f["ps"]) {
            h["ps"] = json!([p]);
            let Some(mut w) = cut(write_file(&file_in(&h))) else { return };
            w.truncate(w.len() - 13);
            parts.push(w[head.len()..].to_vec());
        }
        if parts.is_empty() {
            return;
        }
        let r = &mut self.r;
        for _ in 0..1 + r.below(3) {
            let (i, j) = (r.below(parts.len()), r.below(parts.len()));
            match r.below(3) {
                0 => parts.insert(j, parts[i].clone()),
                1 => parts.swap(i, j),
                _ => {
                    if parts.len() > 1 {
                        parts.remove(i);
                    }
                }
            }
        }
        let mut n = head;
        parts.iter().for_each(|p| n.extend(p));
        n.extend(&b[b.len() - 13..]);
        self.disk = wrap(&n, &self.gv);
        self.ev.push(json!({"a": "damage", "b": vb(&n)}));
    }
    fn edit(&mut self, clone: bool) {
        let s = self.state();
        let mut ps: Paths = vec![];
        for p in list(&s["ps"]) {
            walk(&p[1], &[json!(["top", p[0], 0])], &mut ps);
        }
        let (r, c) = (&mut self.r, &self.c);
        let (path, e) = loop {
            if ps.is_empty() || r.chance(1, 6) {
                let e = match r.below(4) {
                    0 => json!({"e": "pack", "gv": r.pick(&["Default", "None", "Zlib", "ZlibTwice"])}),
                    1 if !ps.is_empty() => json!({"e": "deltop", "nm": ps[r.below(ps.len())].0[0][1]}),
                    2 => {
                        let mut h = s["hdr"].clone();
                        h["cls"] = string(r, c, false);
                        h["cl"] = num(r, 4);
                        json!({"e": "hdr", "h": h})
                    }
                    _ => {
                        let nm = if !ps.is_empty() && r.chance(1, 2) { ps[r.below(ps.len())].0[0][1].clone() } else { string(r, c, true) };
                        json!({"e": "puttop", "nm": nm, "v": prop(r, c, 1)})
                    }
                };
                break (vec![], e);
            }
            let (path, p) = ps[r.below(ps.len())].clone();
            let tagged = path.last().unwrap()[0] == "top" || path.last().unwrap()[0] == "field";
            let k = p["k"].as_str().unwrap();
            let e = match k {
                "Struct" | "SV" => {
                    if p["sv"]["k"] == "Custom" && r.chance(3, 4) {
                        let known = list(&p["sv"]["fs"]);
                        let nm = if !known.is_empty() && r.chance(1, 2) { known[r.below(known.len())][0].clone() } else { string(r, c, true) };
                        if r.chance(1, 3) {
                            json!({"e": "delf", "nm": nm})
                        } else {
                            json!({"e": "putf", "nm": nm, "ps": (0..1 + r.below(2)).map(|_| prop(r, c, 2)).collect::<Vec<_>>()})
                        }
                    } else {
                        let ty = match p["sv"]["k"].as_str().unwrap() {
                            "Vector2D" | "Vector2F" => "Vector2D".to_string(),
                            "Tags" => "GameplayTagContainer".into(),
                            t => t.trim_end_matches(['F', 'D']).to_string(),
                        };
                        let mut q = p.clone();
                        q["sv"] = sv(r, c, &ty, 2);
                        if k == "Struct" {
                            q["guid"] = num(r, 16);
                        }
                        json!({"e": "set", "v": q})
                    }
                }
                "Array" | "Set" => {
                    let es = list(&p["es"]);
                    if es.is_empty() {
                        continue;
                    }
                    if r.chance(1, 2) {
                        if p["w"] == "Properties" && es[0]["k"] == "ByteNs" && es.len() == 1 {
                            continue;
                        }
                        json!({"e": "pop"})
                    } else {
                        let v = match es[0]["k"].as_str().unwrap() {
                            "SV" | "Unknown" => es[r.below(es.len())].clone(),
                            k => leaf(r, c, k, false, 2),
                        };
                        json!({"e": "push", "v": v})
                    }
                }
                "Map" => {
                    let kvs = list(&p["kvs"]);
                    let (Some(kt), Some(vt)) = (kind_of_type(&p["kt"]), kind_of_type(&p["vt"])) else { continue };
                    let key = if !kvs.is_empty() && r.chance(1, 2) {
                        kvs[r.below(kvs.len())][0].clone()
                    } else {
                        loop {
                            let k = element(r, c, &kt, 0, 2);
                            if k["o"] != json!([]) {
                                break k;
                            }
                        }
                    };
                    if r.chance(1, 3) {
                        // a map that could be stored in a compact form would be loaded as one
                        if p["w"] == "Properties" && p["af"] == vb(&[0; 4]) {
                            continue;
                        }
                        json!({"e": "delk", "key": key})
                    } else {
                        json!({"e": "putk", "key": key, "v": element(r, c, &vt, 0, 2)})
                    }
                }
                "Unknown" if !tagged => continue,
                "Unknown" => {
                    let mut q = p.clone();
                    q["raw"] = (0..r.below(30)).map(|_| r.below(256)).collect();
                    json!({"e": "set", "v": q})
                }
                k => json!({"e": "set", "v": leaf(r, c, k, tagged, 2)}),
            };
            break (path, e);
        };
        let m = self.mem.as_mut().unwrap();
        let res = if clone {
            let mut x = m.clone();
            session::edit(&mut x, &path, &e)
        } else {
            session::edit(m, &path, &e)
        };
        let a = if clone { "cloneedit" } else { "edit" };
        self.ev.push(match res {
            Ok(()) => json!({"a": a, "p": path, "e": e, "r": "ok"}),
            Err(w) => json!({"a": a, "p": path, "e": e, "r": "refused", "what": w}),
        });
    }
    fn get(&mut self) {
        let s = self.state();
        let mut ps: Paths = vec![];
        for p in list(&s["ps"]) {
            walk(&p[1], &[json!(["top", p[0], 0])], &mut ps);
        }
        if ps.is_empty() {
            return;
        }
        let (path, _) = ps[self.r.below(ps.len())].clone();
        self.ev.push(match session::get(self.mem.as_ref().unwrap(), &path) {
            Ok(v) => json!({"a": "get", "p": path, "r": "ok", "v": v}),
            Err(w) => json!({"a": "get", "p": path, "r": "refused", "what": w}),
        });
    }
}

fn plain(s: &str) -> Vec<u8> {
    let mut b = (s.len() as u32 + 1).to_le_bytes().to_vec();
    b.extend_from_slice(s.as_bytes());
    b.push(0);
    b
}
/// where something lies that looks like a string of the narrow form
fn strings(b: &[u8]) -> Vec<(usize, usize)> {
    (0..b.len().saturating_sub(4))
        .filter_map(|i| {
            let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
            let x = b.get(i + 4..(i + 4).checked_add(n)?)?;
            let (end, chars) = x.split_last()?;
            (*end == 0 && chars.iter().all(|c| (32..127).contains(c))).then_some((i, i + 4 + n))
        })
        .collect()
}

/// shuffle everything whose order does not matter
fn reorder(r: &mut R, v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if ["kvs", "fs", "nas"].contains(&k.as_str()) {
                    let l = x.as_array_mut().unwrap();
                    for i in (1..l.len()).rev() {
                        let j = r.below(i + 1);
                        l.swap(i, j);
                    }
                }
                reorder(r, x);
            }
        }
        Value::Array(l) => l.iter_mut().for_each(|x| reorder(r, x)),
        _ => {}
    }
}
/// change one place: a character, a bit
fn nudge(r: &mut R, v: &mut Value) {
    fn leaves<'a>(v: &'a mut Value, key: &str, boolean: bool, out: &mut Vec<(&'a mut Vec<Value>, bool, bool)>) {
        match v {
            Value::Object(m) => {
                let b = m.get("k").is_some_and(|k| k == "Bool");
                for (k, x) in m.iter_mut() {
                    if !["et", "kt", "vt"].contains(&k.as_str()) {
                        leaves(x, k, b, out);
                    }
                }
            }
            Value::Array(l) => {
                if l.iter().all(|x| x.is_u64()) {
                    if !l.is_empty() {
                        let num = ["v", "vs", "fl", "guid", "af", "raw", "ai"].contains(&key) || key == "f" && l.len() == 16;
                        out.push((l, num, boolean));
                    }
                } else {
                    l.iter_mut().for_each(|x| leaves(x, key, boolean, out));
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    leaves(v, "", false, &mut out);
    if out.is_empty() {
        return;
    }
    let at = r.below(out.len());
    let (l, num, boolean) = &mut out[at];
    let i = r.below(l.len());
    let x = l[i].as_u64().unwrap();
    if *num {
        l[i] = json!(x ^ if *boolean { 1 } else { 1 << r.below(8) });
    } else {
        match r.below(4) {
            0 if x < 128 => l[i] = json!(x ^ 32),
            1 => l.push(json!(r.pick(&[0, 32, 65]))),
            2 => drop(l.remove(i)),
            _ => l[i] = json!(65 + r.below(26)),
        }
    }
}

/// one trace of a kind of session
fn trace(kind: &str, seed: u64, i: u64) -> Value {
    let mut r = R::new(seed, kind, i);
    let finite = matches!(kind, "json" | "session");
    let (h, mut c) = header(&mut r, kind == "string", finite);
    c.unk = kind == "unknown";
    let gv = if kind == "pal" || r.chance(1, 10) { r.pick(&["None", "Zlib", "ZlibTwice"]) } else { "Default" };
    let n = match kind {
        "header" => r.below(2),
        "session" => 2 + r.below(3),
        _ => 1 + r.below(5),
    };
    let mut f = file(&mut r, h.clone(), &c, gv, n);
    while kind == "hints" && hints_of(&f).is_empty() {
        f = file(&mut r, h.clone(), &c, gv, n);
    }
    let mut t = Rec { r, c, mem: None, disk: vec![], gv: gv.into(), hints: vec![], ev: vec![] };
    t.new_file(f);
    match kind {
        "roundtrip" | "string" | "header" | "pal" | "unknown" => {
            t.save();
            let h = t.hints.clone();
            t.load(h.clone());
            t.save();
            t.load(h);
        }
        "damage" | "cut" | "layout" => {
            t.save();
            for _ in 0..3 {
                if kind == "layout" { t.shuffle() } else { t.damage(kind == "cut") }
                let h = t.hints.clone();
                t.load(h.clone());
                if t.ev.last().unwrap()["r"] == "ok" {
                    t.save();
                    t.load(h);
                }
                if t.ev.last().unwrap()["r"] == "panic" {
                    break;
                }
                let f = t.ev[0]["f"].clone();
                t.new_file(f);
                t.save();
            }
        }
        "hints" => {
            t.save();
            for _ in 0..4 {
                let mut h = t.hints.clone();
                if !h.is_empty() {
                    let k = t.r.below(h.len());
                    match t.r.below(5) {
                        0 => drop(h.remove(k)),
                        1 => h[k][1] = vs(t.r.pick(&["Guid", "IntPoint", "Cust", "DateTime", "Vector"])),
                        2 => {
                            let p = st(&h[k][0]);
                            h[k][0] = vs(&p[p.chars().next().map_or(0, |c| c.len_utf8())..]);
                        }
                        3 => h.push(json!([string(&mut t.r, &t.c, false), vs("Guid")])),
                        _ => {}
                    }
                }
                t.load(h);
            }
        }
        "io" => {
            t.save_slowly();
            let h = t.hints.clone();
            for _ in 0..3 {
                t.save_broken();
                t.load_broken(&h);
                t.load_slowly(h.clone());
                t.save_slowly();
            }
        }
        "counts" => {
            t.count();
            t.save();
            let h = t.hints.clone();
            t.load(h);
            t.count();
        }
        "equal" => {
            let s = t.state();
            for p in list(&s["ps"]) {
                for _ in 0..4 {
                    t.compare(&p[1]);
                }
            }
        }
        "part" => (0..5).for_each(|_| t.part()),
        "make" => {
            let s = t.state();
            let mut ps: Paths = vec![];
            for p in list(&s["ps"]) {
                walk(&p[1], &[json!(["top", p[0], 0])], &mut ps);
            }
            ps.iter().take(12).for_each(|p| t.make(&p.1));
        }
        "version" => (0..10).for_each(|_| t.version()),
        "build" => (0..8).for_each(|_| t.build()),
        "guid" => (0..20).for_each(|_| t.guid()),
        "json" => {
            t.json();
            t.save();
            let h = t.hints.clone();
            t.load(h);
            t.json();
            t.save();
        }
        _ => {
            for _ in 0..8 {
                match t.r.below(12) {
                    0 | 1 => t.save(),
                    2 if !t.disk.is_empty() => {
                        let h = t.hints.clone();
                        t.load(h)
                    }
                    3 => t.json(),
                    4 => t.get(),
                    5 => t.edit(true),
                    _ => t.edit(false),
                }
            }
            t.save();
            let h = t.hints.clone();
            t.load(h);
        }
    }
    json!({"t": i, "kind": kind, "ev": t.ev})
}

/// several traces recorded at the same time in threads of one process
const MIXED: [&str; 12] = ["roundtrip", "damage", "hints", "io", "json", "part", "session", "cut", "pal", "string", "layout", "unknown"];
fn together(seed: u64, from: u64, out: &mut File) {
    let start = Arc::new(Barrier::new(4));
    let ts: Vec<_> = (0..4u64)
        .map(|j| {
            let start = start.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    start.wait();
                    let n = from + j;
                    (0..8u64).map(|k| trace(MIXED[((n * 5 + k * 7) % 12) as usize], seed, n * 8 + k)).collect::<Vec<_>>()
                })
                .unwrap()
        })
        .collect();
    for t in ts {
        for v in t.join().unwrap() {
            writeln!(out, "{v}").unwrap();
        }
    }
}

/// recworker KIND SEED FIRST STEP N OUT
pub fn worker(args: &[String]) {
    let (kind, seed) = (&args[0], args[1].parse::<u64>().unwrap());
    let (first, step, n) = (args[2].parse::<u64>().unwrap(), args[3].parse::<u64>().unwrap(), args[4].parse::<u64>().unwrap());
    let mut out = File::create(&args[5]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = first;
    while i < n {
        if kind == "threads" {
            // 32 traces
            if i / step % 32 == 0 {
                together(seed, i * 4, &mut out);
            }
        } else {
            let v = trace(kind, seed, i);
            writeln!(out, "{v}").unwrap();
        }
        i += step;
    }
}

/// record PROP KIND SEED N OUT DIR
pub fn record(args: &[String]) {
    let (kind, seed, n) = (&args[1], &args[2], &args[3]);
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..8u64)
        .map(|k| {
            let out = format!("{}/{kind}.{k}", args[5]);
            let c = Command::new(&exe)
                .args(["recworker", kind, seed, &k.to_string(), "8", n, &out])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .unwrap();
            (k, out, c)
        })
        .collect();
    let start = Instant::now();
    let mut all = File::create(&args[4]).unwrap();
    let (mut traces, mut events, mut crashes) = (0u64, 0u64, vec![]);
    for (k, out, mut c) in kids {
        let st = loop {
            match c.try_wait().unwrap() {
                Some(s) => break Some(s),
                None if start.elapsed() > Duration::from_secs(200) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(10)),
            }
        };
        let mut mine = 0u64;
        for l in BufReader::new(File::open(&out).unwrap()).lines().map_while(Result::ok) {
            let Some(v) = crate::deep(&l) else { continue };
            mine += 1;
            traces += 1;
            events += list(&v["ev"]).len() as u64;
            writeln!(all, "{l}").unwrap();
        }
        let why = match st {
            Some(s) if s.success() => continue,
            Some(s) => format!("recording process ended with {s}"),
            None => "no answer within 200 s".to_string(),
        };
        crashes.push(json!({"what": why, "kind": kind, "seed": seed, "trace": k + 8 * mine}));
    }
    println!("{}", json!({"traces": traces, "events": events, "crashes": crashes}));
}
