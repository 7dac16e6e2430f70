//! A small choice-sequence property-testing engine (generation, shrinking, replay, evidence).
//!
//! Every random decision of a case is drawn from `Src`, which records it as an integer on a
//! tape.  A case is therefore a pure function of (property, law, VERIF_SEED, index); a failure is
//! shrunk by editing the tape and the shrunk tape is the replay file.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// deterministic replacement for the operating system's entropy: curvo uses rand::rng() in its
// bounding box trees and its curve tessellation.  Each case runs on a thread of its own, whose
// ThreadRng is seeded from the case's seed.
thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5eed) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

// set when the code under test asks for entropy (a law that does so must be declared with rng())
static DRAWN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(
    dest: *mut u8,
    len: usize,
) -> Result<(), getrandom::Error> {
    DRAWN.store(true, Ordering::Relaxed);
    ENTROPY.with(|e| {
        let mut s = e.get();
        for i in 0..len {
            s = splitmix(s);
            *dest.add(i) = (s >> 32) as u8;
        }
        e.set(s);
    });
    Ok(())
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ---------------------------------------------------------------------------------------------
/// Source of all choices of a case.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Src {
    fn random(seed: u64) -> Self {
        Self { tape: vec![], pos: 0, rng: Some(seed) }
    }
    fn replay(tape: Vec<u64>) -> Self {
        Self { tape, pos: 0, rng: None }
    }
    /// integer in [0, n)
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if let Some(s) = self.rng.as_mut() {
            *s = s.wrapping_add(0x9E3779B97F4A7C15);
            let r = splitmix(*s);
            let v = ((r as u128 * n as u128) >> 64) as u64;
            self.tape.push(v);
            self.pos += 1;
            v
        } else {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v % n
        }
    }
    /// integer in [lo, hi]
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// true with probability k/n (shrinks to false)
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.draw(n) >= n - k
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// uniform real in [lo, hi] (shrinks to lo)
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        const M: u64 = 1 << 32;
        let k = self.draw(M + 1);
        lo + (hi - lo) * (k as f64 / M as f64)
    }
    /// a "human" real: multiples of `step` in [lo, hi]
    pub fn grid(&mut self, lo: f64, hi: f64, step: f64) -> f64 {
        let n = ((hi - lo) / step).round() as u64;
        lo + step * self.draw(n + 1) as f64
    }
    /// symmetric coordinate in [-r, r], shrinking towards 0; one third lies on a coarse grid
    pub fn coord(&mut self, r: f64) -> f64 {
        let coarse = self.draw(3) == 0;
        let neg = self.draw(2) == 1;
        let x = if coarse {
            self.grid(0., r, r / 10.)
        } else {
            self.real(0., r)
        };
        if neg {
            -x
        } else {
            x
        }
    }
    pub fn pick<'a, A>(&mut self, xs: &'a [A]) -> &'a A {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    pub fn log_real(&mut self, lo: f64, hi: f64) -> f64 {
        (self.real(lo.ln(), hi.ln())).exp()
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<A>(sig: &str, msg: String) -> Result<A, Fail> {
    Err(Fail { sig: sig.into(), msg })
}
const DISCARD: &str = "__discard";
pub fn discard<A>(why: &str) -> Result<A, Fail> {
    Err(Fail { sig: DISCARD.into(), msg: why.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($fmt:tt)*) => {
        if !($c) {
            return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($fmt)*) });
        }
    };
}
#[macro_export]
macro_rules! note {
    ($cx:expr, $($fmt:tt)*) => {
        if $cx.verbose { let s = format!($($fmt)*); $cx.push_note(s); }
    };
}

/// One case.
pub struct Cx {
    pub src: Src,
    pub verbose: bool,
    pub thorough: bool,
    notes: Vec<String>,
    labels: Vec<String>,
    nontrivial: bool,
}
impl Cx {
    fn new(src: Src, verbose: bool, thorough: bool) -> Self {
        Self { src, verbose, thorough, notes: vec![], labels: vec![], nontrivial: false }
    }
    pub fn push_note(&mut self, s: String) {
        self.notes.push(s)
    }
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.into())
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.into())
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

#[derive(Clone, Copy)]
pub struct Law {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Cx) -> R,
    /// run every case on a thread of its own (the code under test draws from rand::rng())
    pub rng: bool,
}
impl Law {
    pub const fn new(name: &'static str, quick: u64, f: fn(&mut Cx) -> R) -> Self {
        Law { name, quick, thorough: quick * 20, f, rng: false }
    }
    pub const fn rng(mut self) -> Self {
        self.rng = true;
        self
    }
    pub const fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
}

/// A fixed input on which the unrepaired tree is known to break the property; `f` returns Err
/// while it still does.  It is a KNOWN-FINDING while listed in known_findings.jsonl, a violation
/// otherwise.
#[derive(Clone, Copy)]
pub struct Probe {
    pub key: &'static str,
    pub f: fn() -> R,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub laws: &'static [Law],
    pub probes: &'static [Probe],
}

struct Outcome {
    res: R,
    tape: Vec<u64>,
    labels: Vec<String>,
    notes: Vec<String>,
    nontrivial: bool,
}

fn run_case(law: &Law, src: Src, entropy: u64, verbose: bool, thorough: bool) -> Outcome {
    let go = move || {
        ENTROPY.with(|e| e.set(entropy));
        PANIC.with(|p| *p.borrow_mut() = None);
        let mut cx = Cx::new(src, verbose, thorough);
        let r = catch_unwind(AssertUnwindSafe(|| (law.f)(&mut cx)));
        let res = match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or(("?".into(), "?".into()));
                Err(Fail { sig: format!("panic@{loc}"), msg: format!("panicked in {loc}: {msg}") })
            }
        };
        Outcome {
            res,
            tape: cx.src.tape,
            labels: cx.labels,
            notes: cx.notes,
            nontrivial: cx.nontrivial,
        }
    };
    if law.rng {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, go)
                .unwrap()
                .join()
                .unwrap()
        })
    } else {
        go()
    }
}

fn shrink(law: &Law, tape: Vec<u64>, entropy: u64, sig: &str, thorough: bool, deadline: Instant) -> (Vec<u64>, u64) {
    let mut best = tape;
    let mut tries = 0u64;
    let attempt = |t: &Vec<u64>, tries: &mut u64| -> bool {
        *tries += 1;
        let o = run_case(law, Src::replay(t.clone()), entropy, false, thorough);
        matches!(o.res, Err(ref f) if f.sig == sig)
    };
    const MAX: u64 = 4000;
    loop {
        let before = best.clone();
        // delete chunks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && tries < MAX && Instant::now() < deadline {
                let mut t = best.clone();
                t.drain(i..i + size);
                if attempt(&t, &mut tries) {
                    best = t;
                } else {
                    i += size;
                }
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() && tries < MAX && Instant::now() < deadline {
            if best[i] != 0 {
                let mut t = best.clone();
                t[i] = 0;
                if attempt(&t, &mut tries) {
                    best = t;
                } else {
                    // binary descent, and rounding to few significant bits
                    let mut lo = 0u64;
                    let mut hi = best[i];
                    for _ in 0..12 {
                        if hi - lo <= 1 {
                            break;
                        }
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        t[i] = mid;
                        if attempt(&t, &mut tries) {
                            hi = mid;
                            best = t;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || tries >= MAX || Instant::now() >= deadline {
            break;
        }
    }
    (best, tries)
}

type SeenFail = (&'static str, Vec<u64>, u64, Fail);
static SEEN: Mutex<Vec<SeenFail>> = Mutex::new(vec![]);

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.jsonl");
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for line in s.lines().filter(|l| l.trim_start().starts_with('{')) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(line) {
                if v["property"] == id && v["status"] == "known" {
                    out.push((
                        v["key"].as_str().unwrap_or("").to_string(),
                        v["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    out
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/registry/src/").map(|x| x.1).unwrap_or(f);
                f.to_string()
            })
            .unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, format!("{msg} (line {line})"))));
    }));
}

pub fn main(p: &Property) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = if args.first().map(|s| s == "--replay").unwrap_or(false) {
        replay(p, &args[1])
    } else {
        // run on a thread with a big stack
        run(p, &args)
    };
    std::process::exit(code)
}

fn replay(p: &Property, path: &str) -> i32 {
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    if v["kind"] == "probe" {
        let pr = p.probes.iter().find(|x| x.key == v["key"]).expect("probe");
        return match run_probe(pr) {
            Ok(()) => {
                println!("replay: passes");
                0
            }
            Err(f) => {
                println!("replay: fails: {}: {}", f.sig, f.msg);
                1
            }
        };
    }
    let law = p.laws.iter().find(|l| l.name == v["law"]).expect("law");
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let entropy = v["entropy"].as_u64().unwrap_or(0);
    let thorough = v["tier"] == "thorough";
    let o = run_case(law, Src::replay(tape), entropy, true, thorough);
    for n in &o.notes {
        println!("  {n}");
    }
    match o.res {
        Ok(()) => {
            println!("replay: passes");
            0
        }
        Err(f) => {
            println!("replay: fails: {}: {}", f.sig, f.msg);
            1
        }
    }
}

fn run_probe(pr: &Probe) -> R {
    let f = pr.f;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                ENTROPY.with(|e| e.set(7));
                match catch_unwind(AssertUnwindSafe(f)) {
                    Ok(r) => r,
                    Err(_) => {
                        let (loc, msg) = PANIC
                            .with(|p| p.borrow_mut().take())
                            .unwrap_or(("?".into(), "?".into()));
                        fail(&format!("panic@{loc}"), msg)
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn run(p: &Property, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let only = args.first().cloned();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let keep_going = std::env::var("VERIF_KEEP_GOING").is_ok();
    let limit = Duration::from_secs(if thorough { env_u64("VERIF_LIMIT", 6 * 3600) } else { env_u64("VERIF_LIMIT", 780) });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let known = known_keys(p.id);

    // watchdog: a hang is an error of the run, never a violation
    // (failures seen before it are still reported, unshrunk)
    let pid = p.id;
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        println!("ERROR watchdog: the run did not finish within {} s", limit.as_secs());
        let seen = SEEN.lock().map(|s| s.clone()).unwrap_or_default();
        for (law, tape, entropy, f) in seen.iter().take(1) {
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{pid}-{law}-unshrunk.json"));
            let _ = std::fs::write(
                &path,
                serde_json::json!({"property": pid, "kind": "case", "law": law, "tier": if thorough {"thorough"} else {"quick"},
                    "seed": seed, "entropy": entropy, "tape": tape, "sig": f.sig, "message": f.msg})
                .to_string(),
            );
            println!("  law {law}: {}: {}", f.sig, f.msg);
            println!("VIOLATION property={pid} replay={}", path.display());
            std::process::exit(1);
        }
        std::process::exit(2);
    });

    let mut evaluations = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut per_law = vec![];
    let mut samples = vec![];
    let mut violations: Vec<(String, String, String)> = vec![]; // (law, sig, replay path)
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();

    for pr in p.probes {
        evaluations += 1;
        if let Err(f) = run_probe(pr) {
            if let Some((k, what)) = known.iter().find(|(k, _)| k == pr.key) {
                known_hits.insert(k.clone(), what.clone());
            } else {
                let dir = verif_dir().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-probe-{}.json", p.id, pr.key));
                let _ = std::fs::write(
                    &path,
                    serde_json::json!({"property": p.id, "kind": "probe", "key": pr.key, "sig": f.sig, "msg": f.msg}).to_string(),
                );
                println!("  probe {}: {}: {}", pr.key, f.sig, f.msg);
                violations.push((format!("probe {}", pr.key), f.sig.clone(), path.display().to_string()));
            }
        }
    }

    for law in p.laws {
        if let Some(o) = &only {
            if o != law.name {
                continue;
            }
        }
        let lt = Instant::now();
        let total = (((if thorough { law.thorough } else { law.quick }) as f64) * scale).ceil() as u64;
        let base = splitmix(seed ^ hash_str(p.id).rotate_left(17) ^ hash_str(law.name));
        let next = AtomicU64::new(0);
        let first_fail = AtomicU64::new(u64::MAX);
        struct Acc {
            labels: BTreeMap<String, u64>,
            discards: u64,
            nontrivial: u64,
            done: u64,
            hashes: HashSet<u64>,
            fails: Vec<(u64, Vec<u64>, u64, Fail)>,
            nontrivial_idx: Vec<u64>,
        }
        let acc = Mutex::new(Acc {
            labels: BTreeMap::new(),
            discards: 0,
            nontrivial: 0,
            done: 0,
            hashes: HashSet::new(),
            fails: vec![],
            nontrivial_idx: vec![],
        });
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || {
                        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                        let (mut disc, mut nt, mut done) = (0u64, 0u64, 0u64);
                        let mut hashes = HashSet::new();
                        let mut nidx = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            if !keep_going && i > first_fail.load(Ordering::Relaxed) {
                                continue;
                            }
                            let cs = splitmix(base ^ splitmix(i));
                            let entropy = splitmix(cs ^ 0xE17);
                            let o = run_case(law, Src::random(cs), entropy, false, thorough);
                            done += 1;
                            for l in o.labels {
                                *labels.entry(l).or_default() += 1;
                            }
                            match o.res {
                                Ok(()) => {}
                                Err(f) if f.sig == DISCARD => {
                                    disc += 1;
                                    *labels.entry(format!("discard:{}", f.msg)).or_default() += 1;
                                    continue;
                                }
                                Err(f) => {
                                    first_fail.fetch_min(i, Ordering::Relaxed);
                                    if let Ok(mut s) = SEEN.lock() {
                                        if s.len() < 8 {
                                            s.push((law.name, o.tape.clone(), entropy, f.clone()));
                                        }
                                    }
                                    acc.lock().unwrap().fails.push((i, o.tape.clone(), entropy, f));
                                }
                            }
                            if o.nontrivial {
                                nt += 1;
                                if hashes.len() < 4_000_000 {
                                    let h = o.tape.iter().fold(hash_str(law.name), |h, v| splitmix(h ^ *v));
                                    hashes.insert(h);
                                }
                                if nidx.len() < 4 {
                                    nidx.push(i);
                                }
                            }
                        }
                        let mut a = acc.lock().unwrap();
                        for (k, v) in labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                        a.discards += disc;
                        a.nontrivial += nt;
                        a.done += done;
                        a.hashes.extend(hashes);
                        a.nontrivial_idx.extend(nidx);
                    })
                    .unwrap();
            }
        });
        let mut a = acc.into_inner().unwrap();
        evaluations += a.done;
        distinct.extend(a.hashes.iter());
        a.nontrivial_idx.sort();
        for &i in a.nontrivial_idx.iter().take(2) {
            let cs = splitmix(base ^ splitmix(i));
            let o = run_case(law, Src::random(cs), splitmix(cs ^ 0xE17), true, thorough);
            let mut text = o.notes.join("; ");
            if text.len() > 900 {
                let mut e = 900;
                while !text.is_char_boundary(e) {
                    e -= 1;
                }
                text.truncate(e);
                text.push_str("...");
            }
            samples.push(serde_json::json!({"law": law.name, "index": i, "case": text}));
        }
        // failures, smallest index first, one per signature
        a.fails.sort_by_key(|f| f.0);
        if keep_going {
            let mut by: BTreeMap<String, (u64, String)> = BTreeMap::new();
            for f in &a.fails {
                let e = by.entry(f.3.sig.clone()).or_insert((0, f.3.msg.clone()));
                e.0 += 1;
            }
            for (k, (n, m)) in by {
                println!("  [{}] {k}: {n} of {} -- e.g. {}", law.name, a.done, m.chars().take(300).collect::<String>());
            }
        }
        let mut seen = HashSet::new();
        for (i, tape, entropy, f) in &a.fails {
            if !seen.insert(f.sig.clone()) {
                continue;
            }
            if !keep_going && violations.iter().any(|v| v.0 == law.name) {
                break;
            }
            let (t, tries) = shrink(law, tape.clone(), *entropy, &f.sig, thorough, Instant::now() + Duration::from_secs(20));
            let o = run_case(law, Src::replay(t.clone()), *entropy, true, thorough);
            let msg = match &o.res {
                Err(f) => f.msg.clone(),
                Ok(()) => f.msg.clone(),
            };
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{:08x}.json", p.id, law.name, hash_str(&f.sig) as u32));
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&serde_json::json!({
                    "property": p.id, "kind": "case", "law": law.name, "tier": tier, "seed": seed, "index": i,
                    "entropy": entropy, "tape": t, "sig": f.sig, "message": msg,
                    "original_message": f.msg, "shrink_tries": tries, "case": o.notes,
                }))
                .unwrap(),
            );
            println!("  law {} case {}: {}: {}", law.name, i, f.sig, msg);
            for n in o.notes.iter().take(12) {
                println!("    {}", n.chars().take(600).collect::<String>());
            }
            violations.push((law.name.into(), f.sig.clone(), path.display().to_string()));
        }
        per_law.push(serde_json::json!({
            "law": law.name, "cases": a.done, "discarded": a.discards, "nontrivial": a.nontrivial,
            "distinct_nontrivial": a.hashes.len(), "classes": a.labels, "wall_s": (lt.elapsed().as_secs_f64()*100.).round()/100.,
        }));
        if DRAWN.swap(false, Ordering::Relaxed) && !law.rng {
            eprintln!("law {} draws randomness, but is not declared with rng()", law.name);
        }
        if std::env::var("VERIF_STATS").is_ok() {
            println!("  {} cases={} discards={} nontrivial={} {:.2}s {:?}", law.name, a.done, a.discards, a.nontrivial, lt.elapsed().as_secs_f64(), a.labels);
        }
    }

    for (k, what) in &known_hits {
        println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        let ev = serde_json::json!({
            "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": distinct.len(), "rule": p.rule,
                "samples": samples, "laws": per_law, "probes": p.probes.len(), "known_findings_seen": known_hits.len(),
            },
            "assumptions": p.assumptions, "wall_s": (wall*100.).round()/100., "violations": violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
            println!("ERROR cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        p.id, tier, evaluations, distinct.len(), violations.len(), wall
    );
    if violations.is_empty() {
        0
    } else {
        for v in &violations {
            println!("VIOLATION property={} replay={}", p.id, v.2);
        }
        1
    }
}
