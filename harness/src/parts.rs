//! Parts of a save on their own: typed readers and writers
use crate::{conv::*, ops::*};
use gvas::{
    error::Error,
    properties::{
        Property, PropertyTrait,
        array_property::ArrayProperty,
        delegate_property::{DelegateProperty, MulticastInlineDelegateProperty, MulticastSparseDelegateProperty},
        enum_property::EnumProperty,
        field_path_property::FieldPathProperty,
        map_property::MapProperty,
        name_property::NameProperty,
        object_property::ObjectProperty,
        set_property::SetProperty,
        str_property::StrProperty,
        text_property::{FText, FTextHistory, NumberFormattingOptions, TextProperty},
    },
};
use serde_json::{Value, json};
use std::io::{Cursor, Read, Seek, SeekFrom};

/// bytes that lie at `base` of a possibly very large stream
pub struct Far<'a> {
    c: Cursor<&'a [u8]>,
    base: u64,
}
impl<'a> Far<'a> {
    pub fn new(b: &'a [u8], at: u64, base: u64) -> Self {
        let mut c = Cursor::new(b);
        c.set_position(at);
        Far { c, base }
    }
    pub fn position(&self) -> u64 {
        self.c.position()
    }
    /// the outcome as if the stream began at `base`
    pub fn near(&self, mut x: Value) -> Value {
        if let Some(p) = x["e"]["p"].as_u64().filter(|&p| p >= self.base && self.base > 0) {
            x["e"]["p"] = json!(p - self.base);
            if let Some(m) = x["msg"].as_str() {
                x["msg"] = json!(m.replace(&format!("{p:#x}"), &format!("{:#x}", p - self.base)));
            }
        }
        x
    }
}
impl Read for Far<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.c.read(b)
    }
}
impl Seek for Far<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let p = match p {
            SeekFrom::Start(n) => SeekFrom::Start(n.checked_sub(self.base).ok_or(std::io::ErrorKind::InvalidInput)?),
            p => p,
        };
        Ok(self.c.seek(p)? + self.base)
    }
}
/// where the stream begins: here, and so that 2^31 or 2^32 lies within the bytes
pub fn bases(len: usize, p0: u64) -> [u64; 3] {
    let mid = p0 + (len as u64 - p0.min(len as u64)) / 2;
    [0, (1 << 31) - mid, (1 << 32) - mid]
}

type Rd<'a> = Far<'a>;
/// every public way to read a property of this type, apart from Property::new
pub fn typed(ty: &str, tagged: bool, c: &mut Rd, o: &mut Opts, way: usize) -> Option<Result<Property, Error>> {
    macro_rules! plain {
        ($t:ident) => {
            match (way, tagged) {
                (0, _) => Some($t::read(c, tagged).map(Property::from)),
                (1, true) => Some($t::read_header(c).map(Property::from)),
                _ => None,
            }
        };
    }
    macro_rules! headed {
        ($t:ident) => {
            match (way, tagged) {
                (1, true) => Some($t::read_header(c, &mut o.get()).map(Property::from)),
                _ => None,
            }
        };
    }
    match ty {
        "DelegateProperty" => plain!(DelegateProperty),
        "MulticastInlineDelegateProperty" => plain!(MulticastInlineDelegateProperty),
        "MulticastSparseDelegateProperty" => plain!(MulticastSparseDelegateProperty),
        "FieldPathProperty" => plain!(FieldPathProperty),
        "NameProperty" => plain!(NameProperty),
        "ObjectProperty" => plain!(ObjectProperty),
        "StrProperty" => plain!(StrProperty),
        "TextProperty" => match way {
            0 => Some(TextProperty::read(c, tagged, &mut o.get()).map(Property::from)),
            1 if tagged => Some(TextProperty::read_header(c, &mut o.get()).map(Property::from)),
            _ => None,
        },
        "EnumProperty" => match (way, tagged) {
            (1, true) => Some(EnumProperty::read_header(c).map(Property::from)),
            _ => None,
        },
        "ArrayProperty" => headed!(ArrayProperty),
        "SetProperty" => headed!(SetProperty),
        "MapProperty" => headed!(MapProperty),
        _ => None,
    }
}
/// writing through the property's own type
pub fn write_inner(p: &Property, c: &mut Cursor<Vec<u8>>, tagged: bool, body: bool, o: &mut Opts) -> Result<usize, Error> {
    macro_rules! each {
        ($($v:ident),*) => {
            match p {
                $(Property::$v(x) if body => x.write_body(c, &mut o.get()),
                  Property::$v(x) => x.write(c, tagged, &mut o.get()),)*
            }
        };
    }
    each!(
        ArrayProperty, BoolProperty, ByteProperty, DoubleProperty, EnumProperty, FloatProperty, Int16Property, Int64Property, Int8Property, IntProperty,
        MapProperty, NameProperty, ObjectProperty, DelegateProperty, MulticastInlineDelegateProperty, MulticastSparseDelegateProperty, FieldPathProperty,
        SetProperty, StrProperty, StructProperty, StructPropertyValue, TextProperty, UInt16Property, UInt32Property, UInt64Property, UnknownProperty
    )
}
fn written(what: &str, w: &[u8], f: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<usize, Error>) -> Out {
    // behind bytes that are there already
    let g = call(|| {
        let mut c = Cursor::new(vec![0xAA; 5]);
        c.set_position(5);
        let n = f(&mut c)?;
        Ok((c.into_inner(), n))
    });
    let (b, n) = g.ok(what)?;
    if b[..5] != [0xAA; 5] {
        return Err(format!("{what}: earlier bytes changed"));
    }
    same_bytes(what, &b[5..], w)?;
    if n != w.len() {
        return Err(format!("{what}: {n} bytes reported, {} written", w.len()));
    }
    did();
    Ok(())
}
pub fn op_part(v: &Value) -> Out {
    let all = bytes(&v["b"]);
    let ty = st(&v["ty"]);
    let tagged = v["tagged"] == true;
    let sug = v["sug"].as_i64().filter(|&n| n >= 0).map(|n| n as u32);
    let p0 = v["p"].as_u64().unwrap();
    let mut o = Opts::new(v);
    let base = o.stack.clone();
    let h = &v["h"];
    let mut todo = vec![(all.clone(), &v["x"], h)];
    todo.extend(list(&v["cuts"]).iter().map(|c| (all[..c[0].as_u64().unwrap() as usize].to_vec(), &c[1], h)));
    todo.extend(v["hs"].as_array().into_iter().flatten().map(|e| (all.clone(), &e[1], &e[0])));
    for m in v["ms"].as_array().into_iter().flatten() {
        let (at, del) = (m["a"].as_u64().unwrap() as usize, m["d"].as_u64().unwrap() as usize);
        todo.push(([&all[..at], &bytes(&m["i"]), &all[at + del..]].concat(), &m["x"], h));
    }
    for (i, (b, x, h)) in todo.iter().enumerate() {
        sub(i);
        o.hints = hints(h);
        for far in bases(b.len(), p0) {
            let mut c = Far::new(b, p0, far);
            let g = call(|| Property::new(&mut c, &ty, tagged, &mut o.get(), sug));
            let pos = c.position();
            judge(&format!("property on its own (case {i}) at {far}"), &c.near(outcome(&g, |p| json!({"prop": prop_out(p), "p": pos}))), x)?;
            if o.stack != base {
                return Err(format!("location stack {base:?} became {:?}", o.stack));
            }
            for way in 0..2 {
                o.stack.push(ty.clone());
                let mut c = Far::new(b, p0, far);
                let mut no = false;
                let g = call(|| match typed(&ty, tagged, &mut c, &mut o, way) {
                    Some(r) => r.map(Some),
                    None => {
                        no = true;
                        Ok(None)
                    }
                });
                let pos = c.position();
                if !no {
                    judge(
                        &format!("{ty}::{} (case {i}) at {far}", ["read", "read_header"][way]),
                        &c.near(outcome(&g, |p| json!({"prop": prop_out(p.as_ref().unwrap()), "p": pos}))),
                        x,
                    )?;
                }
                if o.stack.pop().as_deref() != Some(&*ty) || o.stack != base {
                    return Err(format!("location stack {base:?} became {:?}", o.stack));
                }
            }
        }
    }
    o.hints = hints(h);
    let w = bytes(&v["w"]);
    let p = prop_in(&v["x"]["prop"]);
    written("property on its own written", &w, |c| p.write(c, tagged, &mut o.get()))?;
    written("property written through its type", &w, |c| write_inner(&p, c, tagged, false, &mut o))?;
    if !tagged {
        written("property body", &w, |c| p.write_body(c, &mut o.get()))?;
        written("property body through its type", &w, |c| write_inner(&p, c, tagged, true, &mut o))?;
    }
    if o.stack != base {
        return Err("location stack changed by writing".into());
    }
    Ok(())
}
pub fn op_textpart(v: &Value) -> Out {
    let all = bytes(&v["b"]);
    let what = v["what"].as_str().unwrap();
    let p0 = v["p"].as_u64().unwrap();
    let mut o = Opts::new(v);
    let whole = json!([all.len(), v["x"]]);
    let mut first = true;
    for cut in std::iter::once(&whole).chain(list(&v["cuts"])) {
        let b = &all[..cut[0].as_u64().unwrap() as usize];
        sub(b.len());
        for far in bases(b.len(), p0) {
        let mut c = Far::new(b, p0, far);
        enum T {
            Text(FText),
            Hist(FTextHistory),
            Fo(NumberFormattingOptions),
        }
        let g = call(|| {
            Ok(match what {
                "text" => T::Text(FText::read(&mut c, &o.get())?),
                "hist" => T::Hist(FTextHistory::read(&mut c, &o.get())?),
                _ => T::Fo(NumberFormattingOptions::read(&mut c)?),
            })
        });
        let pos = c.position();
        let out = outcome(&g, |t| {
            let t = match t {
                T::Text(t) => text_out(t),
                T::Hist(t) => hist_out(t),
                T::Fo(f) => fo_out(&Some(f.clone())),
            };
            json!({"t": t, "p": pos})
        });
        judge(what, &c.near(out), &cut[1])?;
        if first {
            first = false;
            let t = g.ok(what)?;
            written(&format!("{what} written"), &bytes(&v["w"]), |c| match &t {
                T::Text(t) => t.write(c, &o.get()),
                T::Hist(t) => t.write(c, &o.get()),
                T::Fo(f) => f.write(c),
            })?;
        }
        }
    }
    Ok(())
}
