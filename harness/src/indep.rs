//! Calls that must not influence one another: one after the other, many times, one inside
//! another, taking turns in two threads, all at once.
use crate::{conv::*, ops::*};
use gvas::{
    GvasFile, GvasHeader,
    properties::{Property, PropertyTrait},
};
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    io::{self, Cursor, Read, Seek, SeekFrom, Write},
    sync::{Arc, Barrier, Condvar, Mutex},
};

type Tick = Box<dyn FnMut()>;
thread_local! {
    static TICK: RefCell<Option<Tick>> = const { RefCell::new(None) };
}
/// called at every operation on a stream; what it runs is not interrupted itself
fn tick() {
    if let Some(mut f) = TICK.with(|t| t.borrow_mut().take()) {
        f();
        TICK.with(|t| *t.borrow_mut() = Some(f));
    }
}
fn with_tick<T>(f: Tick, g: impl FnOnce() -> T) -> T {
    TICK.with(|t| *t.borrow_mut() = Some(f));
    let r = g();
    TICK.with(|t| *t.borrow_mut() = None);
    r
}

struct Hooked {
    c: Cursor<Vec<u8>>,
    room: usize,
}
impl Hooked {
    fn new(b: &[u8]) -> Self {
        Hooked { c: Cursor::new(b.to_vec()), room: usize::MAX }
    }
}
impl Read for Hooked {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        tick();
        self.c.read(b)
    }
}
impl Write for Hooked {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(self.room.saturating_sub(self.c.position() as usize));
        if n == 0 && !b.is_empty() {
            return Err(io::Error::other("no room left"));
        }
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        self.c.flush()
    }
}
impl Seek for Hooked {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        tick();
        self.c.seek(to)
    }
}

/// a call of the catalogue, ready to be made
struct Task {
    v: Value,
    b: Vec<u8>,
    h: Hints,
    f: Option<GvasFile>,
    p: Option<Property>,
}
impl Task {
    fn new(v: &Value) -> Self {
        let gv = v["gv"].as_str().unwrap_or("Default");
        let plain = if v["b"].is_array() { bytes(&v["b"]) } else { vec![] };
        Task {
            b: if v["t"] == "read" { wrap(&plain, gv) } else { plain },
            h: if v["h"].is_array() { hints(&v["h"]) } else { Hints::new() },
            f: v["f"].is_object().then(|| file_in(&v["f"])),
            p: v["prop"].is_object().then(|| prop_in(&v["prop"])),
            v: v.clone(),
        }
    }
    fn run(&self) -> Out {
        match self.v["t"].as_str().unwrap() {
            "read" => {
                let gv = gver(self.v["gv"].as_str().unwrap());
                let mut c = Hooked::new(&self.b);
                let g = call(|| GvasFile::read_with_hints(&mut c, gv, &self.h));
                judge("read", &outcome(&g, |f| json!({"file": file_out(f)})), &self.v["x"])
            }
            "write" => {
                let mut c = Hooked::new(&[]);
                call(|| self.f.as_ref().unwrap().write(&mut c)).ok("write")?;
                did();
                match self.v["f"]["gv"].as_str().unwrap() {
                    "Default" => same_bytes("write", c.c.get_ref(), &self.b),
                    gv => check_container(c.c.get_ref(), gv, &self.b),
                }
            }
            "full" => {
                let mut c = Hooked::new(&[]);
                c.room = self.v["n"].as_u64().unwrap() as usize;
                did();
                match call(|| self.f.as_ref().unwrap().write(&mut c)) {
                    Got::Err(_) => Ok(()),
                    Got::Ok(_) => Err("write into a full destination succeeded".into()),
                    Got::Panic(p) => Err(format!("write into a full destination: {p}")),
                }
            }
            "part" => {
                let mut o = Opts::new(&self.v);
                let mut c = Hooked::new(&self.b);
                let ty = st(&self.v["ty"]);
                let g = call(|| Property::new(&mut c, &ty, true, &mut o.get(), None));
                let p = c.c.position();
                judge("part", &outcome(&g, |x| json!({"prop": prop_out(x), "p": p})), &self.v["x"])
            }
            "pwrite" => {
                let mut o = Opts::new(&self.v);
                let mut c = Hooked::new(&[]);
                let p = self.p.as_ref().unwrap();
                let n = call(|| p.write(&mut c, self.v["tagged"] == true, &mut o.get())).ok("part written")?;
                did();
                same_bytes("part written", c.c.get_ref(), &self.b)?;
                if n == self.b.len() { Ok(()) } else { Err(format!("{n} bytes reported, {} written", self.b.len())) }
            }
            "try" => {
                let mut o = Opts::new(&self.v);
                let mut c = Hooked::new(&[]);
                let p = self.p.as_ref().unwrap();
                match call(|| p.write(&mut c, self.v["tagged"] == true, &mut o.get())) {
                    Got::Panic(p) => Err(format!("write of a value of another version: {p}")),
                    _ => Ok(()),
                }
            }
            "hdr" => {
                let mut c = Hooked::new(&self.b);
                let g = call(|| GvasHeader::read(&mut c));
                let p = c.c.position();
                judge("header", &outcome(&g, |h| json!({"hdr": header_out(h), "p": p})), &self.v["x"])
            }
            _ => run(&self.v["v"]),
        }
    }
}
fn all(v: &Value) -> Vec<Task> {
    list(&v["tasks"]).iter().map(Task::new).collect()
}

/// whose turn it is: a pattern, repeated; who has finished is passed over
struct Turns {
    s: Mutex<(usize, [bool; 2])>,
    c: Condvar,
    pattern: Vec<usize>,
}
impl Turns {
    fn wait(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        while self.pattern[s.0 % self.pattern.len()] != me && !s.1[1 - me] {
            s = self.c.wait(s).unwrap();
        }
        s.0 += 1;
        self.c.notify_all();
    }
    fn done(&self, me: usize) {
        self.s.lock().unwrap().1[me] = true;
        self.c.notify_all();
    }
}
fn threads(n: usize, f: impl Fn(usize) -> Out + Send + Sync + 'static) -> Out {
    let f = Arc::new(f);
    let ts: Vec<_> = (0..n)
        .map(|i| {
            let f = f.clone();
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || guard(|| f(i)).and_then(|r| r)).unwrap()
        })
        .collect();
    let mut out = Ok(());
    for t in ts {
        if let Ok(Err(e)) = t.join() {
            out = out.and(Err(e));
        }
    }
    out
}

pub fn op_indep(v: &Value) -> Out {
    let ts = all(v);
    let name = |i: usize| format!("call {i} ({}, specified as {})", v["tasks"][i]["t"].as_str().unwrap(), v["tasks"][i]["x"]["r"]);
    let idx = |v: &Value| v.as_u64().unwrap() as usize;
    for (n, plan) in list(&v["plans"]).iter().enumerate() {
        sub(n);
        match v["mode"].as_str().unwrap() {
            "pairs" | "long" => {
                let mut before = String::new();
                for i in list(plan) {
                    let i = idx(i);
                    ts[i].run().map_err(|e| format!("{} after{before}: {e}", name(i)))?;
                    if before.len() < 200 {
                        before += &format!(" {i}");
                    }
                }
            }
            "often" => {
                let i = idx(&plan[0]);
                for k in 0..idx(&plan[1]) {
                    ts[i].run().map_err(|e| format!("{} for the {}th time: {e}", name(i), k + 1))?;
                }
                sub(n);
                for (j, t) in ts.iter().enumerate() {
                    t.run().map_err(|e| format!("{} after {} times {}: {e}", name(j), plan[1], name(i)))?;
                }
            }
            "inner" => {
                let (i, j) = (idx(&plan[0]), idx(&plan[1]));
                let count = std::rc::Rc::new(RefCell::new(0));
                let c = count.clone();
                let one = Task::new(&v["tasks"][i]);
                with_tick(Box::new(move || *c.borrow_mut() += 1), || one.run()).map_err(|e| format!("{}: {e}", name(i)))?;
                let total: usize = *count.borrow();
                let points = idx(&plan[2]).min(total);
                for k in 0..points {
                    // not always the same places
                    let at = (total * k + (i * 7 + j * 13) % total.max(1)) / points.max(1);
                    let inner = Task::new(&v["tasks"][j]);
                    let seen = std::rc::Rc::new(RefCell::new((0usize, Ok(()))));
                    let s = seen.clone();
                    let f = move || {
                        let n = s.borrow().0;
                        s.borrow_mut().0 += 1;
                        if n == at {
                            let r = inner.run();
                            s.borrow_mut().1 = r;
                        }
                    };
                    with_tick(Box::new(f), || one.run()).map_err(|e| format!("{} with {} inside at operation {at}: {e}", name(i), name(j)))?;
                    seen.borrow().1.clone().map_err(|e: String| format!("{} inside {} at operation {at}: {e}", name(j), name(i)))?;
                }
            }
            "given" => {
                // a source or destination that panics: the call is given up half-way
                let (i, j) = (idx(&plan[0]), idx(&plan[1]));
                let count = std::rc::Rc::new(RefCell::new(0));
                let c = count.clone();
                let one = &ts[i];
                with_tick(Box::new(move || *c.borrow_mut() += 1), || one.run()).map_err(|e| format!("{}: {e}", name(i)))?;
                let total: usize = *count.borrow();
                let points = idx(&plan[2]).min(total);
                for k in 0..points {
                    let at = (total * k + (i * 7 + j * 13) % total.max(1)) / points.max(1);
                    let mut n = 0;
                    let f = move || {
                        n += 1;
                        if n == at + 1 {
                            panic!("given up");
                        }
                    };
                    let _ = guard(|| with_tick(Box::new(f), || one.run()));
                    TICK.with(|t| *t.borrow_mut() = None);
                    for x in [j, i] {
                        ts[x].run().map_err(|e| format!("{} after {} was given up at operation {at}: {e}", name(x), name(i)))?;
                    }
                }
            }
            "turns" => {
                let pair = [v["tasks"][idx(&plan[0])].clone(), v["tasks"][idx(&plan[1])].clone()];
                let t = Arc::new(Turns { s: Mutex::new((0, [false; 2])), c: Condvar::new(), pattern: list(&plan[2]).iter().map(idx).collect() });
                threads(2, move |me| {
                    let task = Task::new(&pair[me]);
                    let u = t.clone();
                    let r = guard(|| with_tick(Box::new(move || u.wait(me)), || task.run()));
                    t.done(me);
                    r.and_then(|r| r)
                })
                .map_err(|e| format!("{} and {} in turns {}: {e}", name(idx(&plan[0])), name(idx(&plan[1])), plan[2]))?;
            }
            _ => {
                let (k, rounds) = (idx(&plan[0]), idx(&plan[1]));
                let tasks = v["tasks"].clone();
                let start = Barrier::new(k);
                threads(k, move |me| {
                    let ts: Vec<Task> = list(&tasks).iter().map(Task::new).collect();
                    start.wait();
                    for r in 0..rounds {
                        crate::beat();
                        for i in 0..ts.len() {
                            // two of the threads in the same order, the others each in their own
                            let i = if me < 2 { i } else { (i * (2 * me + 3) + r * 5) % ts.len() };
                            ts[i].run().map_err(|e| format!("call {i} among other threads: {e}"))?;
                        }
                    }
                    Ok(())
                })?;
            }
        }
    }
    Ok(())
}
