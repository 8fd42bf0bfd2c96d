//! Choice-sequence property-testing engine.
//!
//! A case is a pure function of a finite sequence of bounded integer draws. In search mode the
//! draws come from a PRNG seeded with (VERIF_SEED, property, sub-check, case number) and are
//! recorded; in replay/shrink mode they come from a stored sequence (missing draws read as 0).

use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Where the draws of a case go as they are made (`VH_TRACE`), so that a case that ends the process can
/// still be recorded.
static TRACE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
fn trace(v: u64) {
    if let Some(f) = TRACE.get_or_init(|| std::env::var("VH_TRACE").ok().and_then(|p| std::fs::File::create(p).ok())) {
        use std::io::Write;
        let _ = (&*f).write_all(format!("{}\n", v).as_bytes());
    }
}

pub enum Mode {
    Random(StdRng),
    Replay(Vec<u64>, usize),
}

/// Source of choices for one case, and recorder of what the case was.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    pub labels: Vec<String>,
    pub nontrivial: Option<u64>,
    pub desc: String,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(StdRng::seed_from_u64(seed)))
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Self::with(Mode::Replay(c, 0))
    }
    fn with(mode: Mode) -> Self {
        Src { mode, rec: vec![], labels: vec![], nontrivial: None, desc: String::new() }
    }
    /// A draw in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n == 1 { 0 } else { ((r.next_u64() as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v >= n { v % n } else { v }
            }
        };
        trace(v);
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => r.next_u64(),
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v
            }
        };
        trace(v);
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 (the shrunk value) means false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// Marks the case non-trivial, with a key that identifies it among other cases.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
    /// Non-trivial, distinguished by the whole choice sequence so far.
    pub fn nontrivial_by_choices(&mut self) {
        self.nontrivial = Some(hash64(&self.rec));
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 1500 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(s.as_ref());
        }
    }
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // FNV-1a: stable across processes and builds
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.0
}

/// A violated property: what was observed. `sig` identifies a specific finding.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: String,
}
pub type Res = Result<(), Fail>;
pub fn fail(msg: impl Into<String>) -> Res {
    let msg = msg.into();
    Err(Fail { sig: String::new(), msg })
}
pub fn fail_sig(sig: &str, msg: impl Into<String>) -> Res {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::engine::fail(format!($($a)*)); } };
}

/// Outcome of code under test that may panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub type CaseFn = fn(&mut Src) -> Res;

/// One generated check; a property has one or more.
pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}

fn run_case(f: CaseFn, src: &mut Src) -> Res {
    match guarded(|| f(src)) {
        Ok(r) => r,
        Err(p) => Err(Fail { sig: String::new(), msg: format!("panicked: {}", p) }),
    }
}

struct SubResult {
    evals: usize,
    keys: HashSet<u64>,
    labels: BTreeMap<String, usize>,
    samples: Vec<String>,
    failure: Option<(Vec<u64>, Fail)>,
    known: BTreeMap<String, usize>,
}

fn shrink(f: CaseFn, start: Vec<u64>, fail0: Fail) -> (Vec<u64>, Fail) {
    shrink_with(start, fail0, |c| {
        let mut s = Src::replay(c.clone());
        run_case(f, &mut s).err().map(|e| (s.rec, e))
    })
}
/// `run`: what a case drew and how it failed, if it did
fn shrink_with(start: Vec<u64>, fail0: Fail, run: impl Fn(&Vec<u64>) -> Option<(Vec<u64>, Fail)>) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_fail = fail0;
    let mut runs = 0usize;
    let limit = Duration::from_secs(60);
    let try_one = |cand: &Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail, runs: &mut usize| -> bool {
        *runs += 1;
        if let Some((r, e)) = run(cand) {
            // accept only if simpler (shorter, or lexicographically smaller)
            if e.sig == bf.sig && (r.len() < best.len() || (r.len() == best.len() && r < *best)) {
                *best = r;
                *bf = e;
                return true;
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if runs > 400 || t0.elapsed() > limit {
                    return (best, best_fail);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if try_one(&c, &mut best, &mut best_fail, &mut runs) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if runs > 400 || t0.elapsed() > limit {
                return (best, best_fail);
            }
            if best[i] != 0 {
                let orig = best[i];
                for v in [0, 1, orig / 2, orig - 1] {
                    if v < orig && i < best.len() {
                        let mut c = best.clone();
                        c[i] = v;
                        if try_one(&c, &mut best, &mut best_fail, &mut runs) {
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, best_fail);
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")))
}

/// `finding: property=<id> sig=<sig> <text>` lines of KNOWN_FINDINGS
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/KNOWN_FINDINGS", verif_dir());
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.split_whitespace();
            let pr = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("").to_string();
            if pr == prop && !sig.is_empty() {
                out.push((sig, it.collect::<Vec<_>>().join(" ")));
            }
        }
    }
    out
}

fn run_sub(prop: &str, sub_no: usize, sub: &Sub, seed: u64, cases: usize, threads: usize, known: &[String], until: Instant) -> SubResult {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let live = AtomicUsize::new(0);
    let running: Mutex<BTreeMap<usize, Instant>> = Mutex::new(BTreeMap::new());
    let res = Mutex::new(SubResult {
        evals: 0, keys: HashSet::new(), labels: BTreeMap::new(), samples: vec![], failure: None, known: BTreeMap::new(),
    });
    std::thread::scope(|sc| {
        // a case that never ends is a violation too
        sc.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let stuck = running.lock().unwrap().iter().find(|(_, t)| t.elapsed() > STUCK).map(|(i, _)| *i);
                if let Some(i) = stuck {
                    let f = Fail { sig: String::new(), msg: format!("no answer within {} s", STUCK.as_secs()) };
                    let case_seed = hash64(&(seed, prop, sub.name, i as u64));
                    report(prop, sub.name, &f, serde_json::json!({"property": prop, "sub": sub.name, "case_seed": case_seed, "message": f.msg, "seed": seed, "build": std::env::var("VH_BUILD").ok()}), case_seed);
                    let g = res.lock().unwrap();
                    let ev = serde_json::json!({"property": prop, "tier": "quick", "seed": seed, "level": "exploration",
                        "coverage": {"evaluations": g.evals + 1, "distinct_nontrivial": g.keys.len(), "rule": format!("{}: {}", sub.name, sub.rule), "samples": g.samples},
                        "assumptions": ["ended early: a case did not end"], "wall_s": STUCK.as_secs_f64(), "violations": 1});
                    let file = std::env::var("VH_EVIDENCE").unwrap_or(format!("{}/evidence/{}.json", verif_dir(), prop));
                    let _ = std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap());
                    std::process::exit(1);
                }
            }
        });
        let n_threads = threads.min(cases).max(1);
        live.store(n_threads, Ordering::SeqCst);
        for slot in 0..n_threads {
            let (next, stop, done, live, running, res) = (&next, &stop, &done, &live, &running, &res);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || { loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases || stop.load(Ordering::SeqCst) || (i > 0 && Instant::now() > until) {
                    break;
                }
                let mut s = Src::random(hash64(&(seed, prop, sub.name, i as u64)));
                running.lock().unwrap().insert(i, Instant::now());
                inflight(slot, Some((sub_no, hash64(&(seed, prop, sub.name, i as u64)))));
                let r = run_case(sub.f, &mut s);
                inflight(slot, None);
                running.lock().unwrap().remove(&i);
                let mut g = res.lock().unwrap();
                g.evals += 1;
                if let Some(k) = s.nontrivial {
                    let new = g.keys.insert(k);
                    if new && g.samples.len() < 3 && !s.desc.is_empty() {
                        g.samples.push(format!("[{}] {}", sub.name, s.desc));
                    }
                }
                for l in s.labels.drain(..) {
                    *g.labels.entry(l).or_insert(0) += 1;
                }
                if let Err(e) = r {
                    if known.contains(&e.sig) {
                        *g.known.entry(e.sig).or_insert(0) += 1;
                    } else {
                        if g.failure.is_none() {
                            g.failure = Some((s.rec, e));
                        }
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            }
            if live.fetch_sub(1, Ordering::SeqCst) == 1 { done.store(true, Ordering::SeqCst); }
            }).unwrap();
        }
    });
    res.into_inner().unwrap()
}

/// The file in which a child process notes what it is doing: one slot per thread.
fn inflight_file() -> Option<&'static std::fs::File> {
    static F: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    F.get_or_init(|| std::env::var("VH_CHILD").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok())).as_ref()
}
fn inflight(slot: usize, case: Option<(usize, u64)>) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = inflight_file() {
        let (a, b) = case.map(|(i, c)| (i as u64 + 1, c)).unwrap_or((0, 0));
        let mut w = a.to_le_bytes().to_vec();
        w.extend(b.to_le_bytes());
        let _ = f.write_at(&w, 16 * slot as u64);
    }
}

/// Runs the check in a child process. If a case ends the process (an abort, a stack overflow, memory
/// exhausted), that case is found, shrunk and reported.
fn supervise(id: &str, subs: &[Sub], only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let build = std::env::var("VH_BUILD").ok();
    let base = format!("{}/harness/target/inflight-{}-{}", verif_dir(), id, std::process::id());
    let (notes, failing, draws) = (base.clone(), format!("{}.json", base), format!("{}.draws", base));
    let clean = || for f in [&notes, &failing, &draws] { let _ = std::fs::remove_file(f); };
    clean();
    std::fs::write(&notes, b"").expect("scratch file");
    let exe = std::env::current_exe().expect("own path");
    let mut c = std::process::Command::new(&exe);
    c.arg("check").arg(id).args(only).env("VH_CHILD", &notes);
    let st = c.status().expect("the check runs");
    if let Some(code) = st.code() {
        clean();
        return code;
    }
    // ended by a signal
    let how = format!("{:?}", st);
    let die = |choices: &Vec<u64>, sub: &str, case_seed: Option<u64>| -> Option<(Vec<u64>, Fail)> {
        let j = match case_seed {
            Some(c) => serde_json::json!({"property": id, "sub": sub, "case_seed": c}),
            None => serde_json::json!({"property": id, "sub": sub, "choices": choices}),
        };
        std::fs::write(&failing, j.to_string()).ok()?;
        let st = std::process::Command::new(&exe).arg("replay").arg(&failing).env("VH_TRACE", &draws).env("VH_CHILD", &notes)
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok()?;
        if st.code().is_some() { return None; }
        let rec = std::fs::read_to_string(&draws).ok()?.lines().map(|l| l.parse().unwrap_or(0)).collect();
        Some((rec, Fail { sig: String::new(), msg: format!("the process is ended by the case: {:?}", st) }))
    };
    let mut found: Option<(String, serde_json::Value, Fail, u64)> = None;
    // a case that was being shrunk
    let known = std::fs::read_to_string(&failing).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
    if let Some(v) = known {
        let f = Fail { sig: String::new(), msg: v["message"].as_str().unwrap_or("").to_string() };
        let key = hash64(&v["choices"].to_string());
        found = Some((v["sub"].as_str().unwrap_or("").to_string(), v, f, key));
    } else {
        let b = std::fs::read(&notes).unwrap_or_default();
        let n = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        for i in (0..b.len() / 16).map(|i| 16 * i) {
            if n(i) == 0 { continue; }
            let sub = &subs[n(i) as usize - 1];
            if let Some((rec, f)) = die(&vec![], sub.name, Some(n(i + 8))) {
                let (choices, f) = match die(&rec, sub.name, None) {
                    Some(_) => shrink_with(rec, f, |c| die(c, sub.name, None)),
                    None => (rec, f),
                };
                let key = hash64(&choices);
                let j = serde_json::json!({"property": id, "sub": sub.name, "choices": choices, "message": f.msg, "build": build});
                found = Some((sub.name.to_string(), j, f, key));
                break;
            }
        }
    }
    clean();
    let Some((sub, j, f, key)) = found else {
        eprintln!("the check was ended ({}) and none of its last cases does that again", how);
        return 2;
    };
    report(id, &sub, &f, j, key);
    let ev = serde_json::json!({"property": id, "tier": "quick", "seed": 0, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | "), "samples": [f.msg]},
        "assumptions": ["ended early: a case ended the process"], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
    let file = std::env::var("VH_EVIDENCE").unwrap_or(format!("{}/evidence/{}.json", verif_dir(), id));
    let _ = std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap());
    1
}

/// Bounds the memory of this process, so that a case that asks for too much fails by itself.
fn limit_memory() {
    #[repr(C)]
    struct Rlimit { cur: u64, max: u64 }
    extern "C" { fn setrlimit(resource: i32, r: *const Rlimit) -> i32; }
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    unsafe {
        setrlimit(RLIMIT_AS, &Rlimit { cur: 20 << 30, max: 20 << 30 });
        setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
    }
}

/// Longest time one case may take.
const STUCK: Duration = Duration::from_secs(300);

/// Writes the replay file and the violation line.
fn report(id: &str, sub: &str, f: &Fail, j: serde_json::Value, key: u64) {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{:016x}.json", dir, id, sub, key);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("{} {}: {}", id, sub, f.msg);
    println!("VIOLATION property={} replay={}", id, path);
}

/// Entry point of every check binary:
///   <bin> check <ID>           (tier and seed from VERIF_TIER / VERIF_SEED)
///   <bin> replay <file>
///   <bin> list
pub fn main_with(props: &[(&'static str, Vec<Sub>, &'static [&'static str])]) {
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (id, subs, _) in props {
                for s in subs {
                    println!("{} {} quick={} thorough={}", id, s.name, s.quick, s.thorough);
                }
            }
        }
        Some("replay") => {
            limit_memory();
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&txt).expect("json");
            let id = v["property"].as_str().unwrap();
            let name = v["sub"].as_str().unwrap();
            let mut s = match v["case_seed"].as_u64() {
                Some(c) => Src::random(c),
                None => Src::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
            };
            let sub = props.iter().find(|p| p.0 == id).expect("property").1.iter().find(|s| s.name == name).expect("sub");
            let r = run_case(sub.f, &mut s);
            println!("case: {}", s.desc);
            match r {
                Ok(()) => { println!("replay: property holds on this case"); }
                Err(e) => {
                    println!("replay: VIOLATED: {}", e.msg);
                    std::process::exit(1);
                }
            }
        }
        Some("check") => {
            let id = args[2].as_str();
            if std::env::var("VH_CHILD").is_ok() { limit_memory(); }
            let (_, subs, assumptions) = props.iter().find(|p| p.0 == id).expect("unknown property");
            if std::env::var("VH_CHILD").is_err() { std::process::exit(supervise(id, subs, args.get(3).map(|s| s.as_str()))); }
            std::process::exit(check(id, subs, assumptions, args.get(3).map(|s| s.as_str())));
        }
        _ => {
            eprintln!("usage: check ID [sub] | replay FILE | list");
            std::process::exit(2);
        }
    }
}

/// Runs a share of the check with another build of this binary (`VH_ALT=name:path`), for code that depends
/// on the feature set. Returns what it found, from its own evidence file.
fn other_build(id: &str, only: Option<&str>) -> Option<(String, serde_json::Value)> {
    let alt = std::env::var("VH_ALT").ok()?;
    let (name, path) = alt.split_once(':')?;
    let file = format!("{}/harness/target/evidence-{}-{}.json", verif_dir(), id, name);
    let _ = std::fs::remove_file(&file);
    let mut c = std::process::Command::new(path);
    c.arg("check").arg(id);
    if let Some(o) = only { c.arg(o); }
    c.env_remove("VH_ALT").env_remove("VH_CHILD").env("VH_BUILD", name).env("VH_EVIDENCE", &file).env("VH_SHARE", "4");
    let out = c.output().expect("the other build runs");
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if !l.starts_with("KNOWN-FINDING") { println!("{}", l); }
    }
    let ev = std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str(&t).ok());
    let _ = std::fs::remove_file(&file);
    match ev {
        Some(v) => Some((name.to_string(), v)),
        None => {
            eprintln!("no result of the {} build: {:?} {}", name, out.status, String::from_utf8_lossy(&out.stderr));
            std::process::exit(2);
        }
    }
}

fn check(id: &str, subs: &[Sub], assumptions: &[&str], only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let build = std::env::var("VH_BUILD").ok();
    let share: usize = std::env::var("VH_SHARE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // (other cases in the other build)
    let seed = if build.is_some() { seed.wrapping_add(0x5eed_0000) } else { seed };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let known = known_findings(id);
    let known_sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples: Vec<String> = vec![];
    let mut per = serde_json::Map::new();
    let mut rules = vec![];
    let mut violations = 0;
    let mut seen_known: BTreeMap<String, usize> = BTreeMap::new();
    // time limits, so that a check of slow code still answers
    let budget = Duration::from_secs(if thorough { 6 * 3600 } else if share > 1 { 100 } else { 400 });
    let n_subs = subs.len();
    for (si, sub) in subs.iter().enumerate() {
        let left = budget.saturating_sub(t0.elapsed());
        let until = Instant::now() + left / (n_subs - si) as u32;
        if let Some(o) = only {
            if o != sub.name { continue; }
        }
        let mut cases = if thorough { sub.thorough } else { sub.quick };
        if let Ok(m) = std::env::var("VH_CASES") {
            cases = m.parse().unwrap();
        }
        if cases == 0 { continue; }
        cases = (cases + share - 1) / share;
        let ts = Instant::now();
        let r = run_sub(id, si, sub, seed, cases, threads, &known_sigs, until);
        evals += r.evals;
        distinct += r.keys.len();
        samples.extend(r.samples.iter().cloned());
        rules.push(format!("{}: {}", sub.name, sub.rule));
        per.insert(sub.name.into(), serde_json::json!({
            "evaluations": r.evals, "distinct_nontrivial": r.keys.len(), "classes": r.labels,
            "wall_s": ts.elapsed().as_secs_f64()
        }));
        for (k, n) in r.known {
            *seen_known.entry(k).or_insert(0) += n;
        }
        if let Some((choices, f)) = r.failure {
            violations += 1;
            // (a case that hangs is not worth shrinking)
            if let Ok(p) = std::env::var("VH_CHILD") {
                // (in case shrinking ends the process)
                let j = serde_json::json!({"property": id, "sub": sub.name, "choices": choices, "message": f.msg, "sig": f.sig, "seed": seed, "build": build});
                let _ = std::fs::write(format!("{}.json", p), j.to_string());
            }
            let (choices, f) = if f.msg.contains("no answer within") { (choices, f) } else { shrink(sub.f, choices, f) };
            let mut s = Src::replay(choices.clone());
            if !f.msg.contains("no answer within") { let _ = run_case(sub.f, &mut s); }
            let j = serde_json::json!({"property": id, "sub": sub.name, "choices": choices, "message": f.msg, "sig": f.sig, "case": s.desc, "seed": seed, "build": build});
            report(id, sub.name, &f, j, hash64(&choices));
        }
    }
    if let Some((name, v)) = other_build(id, only) {
        let n = |k: &str| v["coverage"][k].as_u64().unwrap_or(0) as usize;
        evals += n("evaluations");
        distinct += n("distinct_nontrivial");
        violations += v["violations"].as_u64().unwrap_or(0) as usize;
        per.insert(if name == "none" { "build without features".to_string() } else { format!("build {}", name) }, v["coverage"]["sub_checks"].clone());
    }
    for (sig, text) in &known {
        println!("KNOWN-FINDING: property={} {} ({} cases this run)", id, text, seen_known.get(sig).unwrap_or(&0));
    }
    let ev = serde_json::json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rules.join(" | "),
            "samples": samples, "sub_checks": per,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let file = std::env::var("VH_EVIDENCE").unwrap_or(format!("{}/{}.json", dir, id));
    std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1}s", id, build.map(|b| format!(" ({} build)", b)).unwrap_or_default(), tier, evals, distinct, violations, t0.elapsed().as_secs_f64());
    if violations > 0 { 1 } else { 0 }
}
