mod alloc;
mod conv;
mod ctor;
mod indep;
mod jsonx;
mod ops;
mod parts;
mod record;
mod rnd;
mod session;
mod streams;
mod versions;

use serde_json::{Value, json};
use std::{
    fs::File,
    io::{BufRead, BufReader, Read, Seek, SeekFrom, Write},
    os::unix::{fs::FileExt, process::ExitStatusExt},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        Mutex, OnceLock,
        atomic::{AtomicU64, Ordering::Relaxed},
    },
    time::{Duration, Instant},
};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

// ---------------------------------------------------------------- progress of a worker
static BEAT: OnceLock<File> = OnceLock::new();
static AT: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
/// vector number, position inside it, and a counter, for the parent
pub fn beat() {
    if let Some(f) = BEAT.get() {
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&AT.load(Relaxed).to_le_bytes());
        b[8..16].copy_from_slice(&ops::SUB.load(Relaxed).to_le_bytes());
        b[16..].copy_from_slice(&COUNT.fetch_add(1, Relaxed).to_le_bytes());
        let _ = f.write_at(&b, 0);
    }
}
fn read_beat(p: &Path) -> (u64, u64, u64) {
    let mut b = [0u8; 24];
    if let Ok(f) = File::open(p) {
        let _ = f.read_at(&mut b, 0);
    }
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    (g(0), g(8), g(16))
}

/// values are nested more deeply than serde_json allows by default
pub fn deep(s: &str) -> Option<Value> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut d).ok()
}

static PANIC_AT: Mutex<String> = Mutex::new(String::new());

/// A line of TLC output that carries a vector: a TLA+ string containing JSON
pub fn vector(line: &str) -> Option<Value> {
    if line.starts_with("\"{") {
        let s: String = serde_json::from_str(line).ok()?;
        deep(&s)
    } else if line.starts_with('{') {
        deep(line)
    } else {
        None
    }
}

/// worker FILE K N FIRST BEATFILE: run the vectors with index = K mod N, from FIRST
fn worker(args: &[String]) {
    let file = &args[0];
    let k: u64 = args[1].parse().unwrap();
    let n: u64 = args[2].parse().unwrap();
    let first: u64 = args[3].parse().unwrap();
    let _ = BEAT.set(File::options().write(true).create(true).truncate(false).open(&args[4]).unwrap());
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    std::panic::set_hook(Box::new(|i| {
        *PANIC_AT.lock().unwrap() = i.location().map(|l| l.file().to_string()).unwrap_or_default();
    }));
    let out = Mutex::new(std::io::stdout());
    let mut ran = 0u64;
    let mut by_op = std::collections::BTreeMap::<String, u64>::new();
    let r = BufReader::with_capacity(1 << 20, File::open(file).unwrap());
    let mut idx = 0u64;
    for line in r.lines() {
        let Ok(line) = line else { continue };
        if !(line.starts_with("\"{") || line.starts_with('{')) {
            continue;
        }
        let i = idx;
        idx += 1;
        if i % n != k || i < first {
            continue;
        }
        let Some(v) = vector(&line) else {
            writeln!(out.lock().unwrap(), "{}", json!({"broken": i})).unwrap();
            continue;
        };
        AT.store(i, Relaxed);
        ops::SUB.store(0, Relaxed);
        beat();
        ran += 1;
        *by_op.entry(v["op"].as_str().unwrap_or("?").to_string()).or_default() += 1;
        match ops::guard(|| ops::run(&v)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => writeln!(out.lock().unwrap(), "{}", json!({"fail": i, "what": e})).unwrap(),
            Err(e) => writeln!(out.lock().unwrap(), "{}", {
                // a panic of the library is an outcome wherever it happens; one of the harness is not
                let at = PANIC_AT.lock().unwrap().clone();
                json!({"fail": i, "what": format!("{e} in {at}"), "harness": !at.contains("/repo/")})
            })
            .unwrap(),
        }
    }
    writeln!(out.lock().unwrap(), "{}", json!({"ran": ran, "compared": ops::DONE.load(Relaxed), "ops": by_op})).unwrap();
}

struct Slot {
    child: Child,
    out: PathBuf,
    beat: PathBuf,
    last: (u64, u64, u64),
    since: Instant,
    crashes: u32,
}

/// replay FILE DIR [N]: run all vectors of FILE in N workers, print a summary as JSON
fn replay(args: &[String]) {
    let file = args[0].clone();
    let dir = PathBuf::from(&args[1]);
    let n: u64 = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let start = |k: u64, first: u64, gen_: u32| -> Slot {
        let out = dir.join(format!("out.{k}.{gen_}"));
        let beat = dir.join(format!("beat.{k}.{gen_}"));
        let child = Command::new(&exe)
            .args(["worker", &file, &k.to_string(), &n.to_string(), &first.to_string()])
            .arg(&beat)
            .stdout(Stdio::from(File::create(&out).unwrap()))
            .stderr(Stdio::null())
            .stdin(Stdio::null())
            .spawn()
            .unwrap();
        Slot { child, out, beat, last: (0, 0, 0), since: Instant::now(), crashes: gen_ }
    };
    let mut slots: Vec<Option<Slot>> = (0..n).map(|k| Some(start(k, 0, 0))).collect();
    let mut fails: Vec<Value> = vec![];
    let (mut ran, mut compared) = (0u64, 0u64);
    let mut by_op = std::collections::BTreeMap::<String, u64>::new();
    let mut incomplete = vec![];
    while slots.iter().any(|s| s.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..n {
            let Some(s) = slots[k as usize].as_mut() else { continue };
            let mut ended = s.child.try_wait().unwrap();
            let mut why = String::new();
            if ended.is_none() {
                let b = read_beat(&s.beat);
                if b != s.last {
                    s.last = b;
                    s.since = Instant::now();
                } else if s.since.elapsed() > Duration::from_secs(30) {
                    let _ = s.child.kill();
                    ended = Some(s.child.wait().unwrap());
                    why = "no answer within 30 s".into();
                }
            }
            let Some(st) = ended else { continue };
            let s = slots[k as usize].take().unwrap();
            let mut text = String::new();
            File::open(&s.out).unwrap().read_to_string(&mut text).unwrap();
            let mut finished = false;
            for l in text.lines() {
                let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
                if v["ran"].is_u64() {
                    finished = true;
                    ran += v["ran"].as_u64().unwrap();
                    compared += v["compared"].as_u64().unwrap();
                    for (o, c) in v["ops"].as_object().unwrap() {
                        *by_op.entry(o.clone()).or_default() += c.as_u64().unwrap();
                    }
                } else {
                    fails.push(v);
                }
            }
            if finished && st.success() {
                continue;
            }
            let (at, sub, cnt) = read_beat(&s.beat);
            if why.is_empty() {
                why = match st.signal() {
                    Some(g) => format!("process ended by signal {g} (stack or memory exhausted)"),
                    None => format!("process ended with {st}"),
                };
            }
            if cnt == 0 && at == 0 && sub == 0 && !s.beat.exists() {
                incomplete.push(json!({"worker": k, "why": why}));
                continue;
            }
            fails.push(json!({"fail": at, "sub": sub, "what": why, "crash": true}));
            // one call that never returns is enough
            if s.crashes < 20 && st.signal() != Some(9) {
                slots[k as usize] = Some(start(k, at + 1, s.crashes + 1));
            } else {
                incomplete.push(json!({"worker": k, "why": "given up after the last failure"}));
            }
        }
    }
    println!("{}", json!({"ran": ran, "compared": compared, "ops": by_op, "fails": fails, "incomplete": incomplete}));
}

/// one FILE: run a single vector in this process
fn one(args: &[String]) {
    let mut text = String::new();
    File::open(&args[0]).unwrap().read_to_string(&mut text).unwrap();
    let mut bad = false;
    for l in text.lines() {
        let Some(v) = vector(l) else { continue };
        match ops::guard(|| ops::run(&v)) {
            Ok(Ok(())) => println!("ok"),
            Ok(Err(e)) | Err(e) => {
                println!("FAIL {e}");
                bad = true;
            }
        }
    }
    std::process::exit(bad as i32);
}

/// pick FILE I: print vector I
fn pick(args: &[String]) {
    let i: usize = args[1].parse().unwrap();
    let mut f = File::open(&args[0]).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    let l = BufReader::new(f)
        .lines()
        .map_while(Result::ok)
        .filter(|l| l.starts_with("\"{") || l.starts_with('{'))
        .nth(i)
        .unwrap();
    println!("{}", vector(&l).unwrap());
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = args[1..].to_vec();
    let cmd = args[0].clone();
    // library calls run on a thread with the default stack of a main thread
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || match cmd.as_str() {
            "worker" => worker(&rest),
            "replay" => replay(&rest),
            "one" => one(&rest),
            "pick" => pick(&rest),
            "record" => record::record(&rest),
            "recworker" => record::worker(&rest),
            _ => panic!("usage: worker|replay|one|pick"),
        })
        .unwrap();
    if t.join().is_err() {
        std::process::exit(2);
    }
}
