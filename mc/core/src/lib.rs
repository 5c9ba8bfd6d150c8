//! Exhaustive-exploration driver shared by all checks.
//!
//! A check is a list of *families*. A family is a finite, indexable space of
//! cases (`0..size`); the driver visits every index on a pool of threads and
//! never samples. A case may explore a sub-space of its own (for example a
//! breadth first search over edit histories rooted at text number `index`).
//!
//! Failures are reported with a stable textual key, so that a known finding
//! can be identified by its exact input, and with a replay file that names
//! family and index.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod util;
pub use serde_json;

pub struct Failure {
    pub key: String,
    pub msg: String,
}

/// Per-thread accumulator handed to every case.
pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    outcomes: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failures: Vec<Failure>,
    n_failures: u64,
    slot: usize,
    verbose: bool,
}

const OUTCOME_CAP: usize = 200_000;
const STRIDE: usize = 4;

impl Ctx {
    fn new(slot: usize, verbose: bool) -> Ctx {
        Ctx {
            states: 0,
            transitions: 0,
            validated: 0,
            outcomes: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            failures: Vec::new(),
            n_failures: 0,
            slot,
            verbose,
        }
    }

    /// A distinct state of the explored system (input, history prefix, ...).
    pub fn state(&mut self) {
        self.states += 1;
        self.beat();
    }

    /// One execution of the code under test whose result is judged.
    pub fn transition(&mut self) {
        self.transitions += 1;
        self.beat();
    }

    pub fn beat(&self) {
        HEARTBEAT[self.slot * 8].fetch_add(1, Ordering::Relaxed);
    }

    /// Records an observed outcome; the number of distinct ones is reported,
    /// to make vacuous exploration visible.
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(600).collect());
        }
    }

    pub fn fail<K: Into<String>, M: Into<String>>(&mut self, key: K, msg: M) {
        self.n_failures += 1;
        if self.failures.len() < 400 {
            self.failures.push(Failure { key: key.into(), msg: msg.into() });
        }
    }

    /// Judges one execution. A panic of the code under test is a failure.
    /// `f` must be deterministic; it is run again to confirm a failure.
    pub fn check<F>(&mut self, key: &dyn Fn() -> String, f: F)
    where
        F: Fn() -> Result<u64, String>,
    {
        self.transition();
        if self.verbose {
            println!("case {}", key());
        }
        match guarded(&f) {
            Ok(h) => self.outcome(h),
            Err(msg) => {
                // Confirm: a failure has to be reproducible.
                match guarded(&f) {
                    Err(_) => self.fail(key(), msg),
                    Ok(_) => self.fail(key(), format!("(not reproduced on the second run) {}", msg)),
                }
            }
        }
    }
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T, F: FnOnce() -> Result<T, String>>(f: F) -> Result<T, String> {
    IN_GUARD.with(|g| *g.borrow_mut() += 1);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| *g.borrow_mut() -= 1);
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(format!("panic: {}", m.unwrap_or_else(|| "?".to_owned())))
        }
    }
}

thread_local! {
    static IN_GUARD: RefCell<u32> = RefCell::new(0);
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

const MAX_THREADS: usize = 64;
// One cache line per thread.
static HEARTBEAT: [AtomicU64; MAX_THREADS * 8] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; MAX_THREADS * 8]
};

pub struct Family {
    pub name: String,
    pub bounds: String,
    pub size: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
}

impl Family {
    pub fn new<N, B, F>(name: N, bounds: B, size: u64, run: F) -> Family
    where
        N: Into<String>,
        B: Into<String>,
        F: Fn(u64, &mut Ctx) + Send + Sync + 'static,
    {
        Family { name: name.into(), bounds: bounds.into(), size, run: Box::new(run) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Opts {
    pub property: String,
    pub tier: Tier,
    pub jobs: usize,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub known: Option<String>,
    pub slots: Option<String>,
    pub replay: Option<(String, u64)>,
    pub only: Option<String>,
    pub hang_secs: u64,
}

pub fn parse_opts() -> Opts {
    let mut o = Opts {
        property: String::new(),
        tier: Tier::Quick,
        jobs: 8,
        evidence: None,
        replay_dir: "/tmp".to_owned(),
        known: None,
        slots: None,
        replay: None,
        only: None,
        hang_secs: 90,
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap_or_else(|| panic!("missing value for {}", a));
        match a.as_str() {
            "--tier" => {
                o.tier = match val().as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    t => panic!("bad tier {}", t),
                }
            }
            "--jobs" => o.jobs = val().parse().unwrap(),
            "--evidence" => o.evidence = Some(val()),
            "--replay-dir" => o.replay_dir = val(),
            "--known" => o.known = Some(val()),
            "--slots" => o.slots = Some(val()),
            "--only" => o.only = Some(val()),
            "--hang-secs" => o.hang_secs = val().parse().unwrap(),
            "--replay" => {
                let f = val();
                let i = val().parse().unwrap();
                o.replay = Some((f, i));
            }
            _ if o.property.is_empty() => o.property = a.clone(),
            _ => panic!("unexpected argument {}", a),
        }
    }
    o.jobs = o.jobs.max(1).min(MAX_THREADS);
    o
}

/// Assumptions and remarks that go to the evidence file.
#[derive(Default)]
pub struct Notes {
    pub assumptions: Vec<String>,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
}

/// Slots in a shared file: a crash of this process leaves behind which cases
/// were being executed.
struct Slots {
    base: *const AtomicU64,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn open(path: &Option<String>) -> Slots {
        let len = MAX_THREADS * STRIDE * 8;
        let path = match path {
            None => {
                let v: Vec<AtomicU64> = (0..MAX_THREADS * STRIDE).map(|_| AtomicU64::new(0)).collect();
                return Slots { base: Box::leak(v.into_boxed_slice()).as_ptr() };
            }
            Some(p) => p,
        };
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(0).unwrap();
        f.set_len(len as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        std::mem::forget(f);
        Slots { base: p as *const AtomicU64 }
    }
    fn set(&self, slot: usize, family: u64, index: u64, active: bool) {
        unsafe {
            (*self.base.add(slot * STRIDE)).store(family, Ordering::Relaxed);
            (*self.base.add(slot * STRIDE + 1)).store(index, Ordering::Relaxed);
            (*self.base.add(slot * STRIDE + 2)).store(active as u64, Ordering::Relaxed);
        }
    }
    fn get(&self, slot: usize) -> (u64, u64, bool) {
        unsafe {
            (
                (*self.base.add(slot * STRIDE)).load(Ordering::Relaxed),
                (*self.base.add(slot * STRIDE + 1)).load(Ordering::Relaxed),
                (*self.base.add(slot * STRIDE + 2)).load(Ordering::Relaxed) != 0,
            )
        }
    }
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let guarded = IN_GUARD.with(|g| *g.borrow() > 0);
        if guarded {
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(text)
                }
            });
        } else {
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(text.clone())
                }
            });
            if std::thread::current().name() != Some("explorer") {
                eprintln!("panic outside of a case: {}", text);
            }
        }
    }));
}

struct Known {
    what: String,
    key: String,
}

fn load_known(path: &Option<String>, property: &str) -> Vec<Known> {
    let path = match path {
        Some(p) => p,
        None => return Vec::new(),
    };
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return Vec::new(),
    };
    let v: serde_json::Value = serde_json::from_str(&text).expect("known findings file");
    let mut res = Vec::new();
    for e in v["findings"].as_array().expect("findings") {
        if e["property"] == property {
            res.push(Known {
                what: e["what"].as_str().unwrap().to_owned(),
                key: e["key"].as_str().unwrap().to_owned(),
            });
        }
    }
    res
}

/// Runs the check and exits the process.
pub fn run_check(o: Opts, families: Vec<Family>, notes: Notes) -> ! {
    install_hook();
    let started = Instant::now();
    if let Some((ref fam, index)) = o.replay {
        let f = families.iter().find(|f| &f.name == fam).unwrap_or_else(|| panic!("no family {}", fam));
        let mut ctx = Ctx::new(0, std::env::var("MC_VERBOSE").is_ok());
        let th_res = run_one(f, index, &mut ctx);
        if let Err(m) = th_res {
            ctx.fail(format!("{}#{}", f.name, index), m);
        }
        for f in &ctx.failures {
            println!("FAIL key={}\n  {}", f.key, f.msg);
        }
        println!("replayed {} #{}: {} executions, {} failures", fam, index, ctx.transitions, ctx.n_failures);
        std::process::exit(if ctx.n_failures > 0 { 1 } else { 0 });
    }

    let known = load_known(&o.known, &o.property);
    let slots = Arc::new(Slots::open(&o.slots));
    let families: Arc<Vec<Family>> = Arc::new(
        families
            .into_iter()
            .filter(|f| o.only.as_ref().map_or(true, |p| f.name.contains(p.as_str())))
            .collect(),
    );
    // Names of families, for the parent process.
    if let Some(ref s) = o.slots {
        let names: Vec<&str> = families.iter().map(|f| f.name.as_str()).collect();
        fs::write(format!("{}.names", s), serde_json::to_string(&names).unwrap()).unwrap();
    }

    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicUsize::new(0));
    let total: Arc<Mutex<Vec<(usize, u64, Ctx)>>> = Arc::new(Mutex::new(Vec::new()));
    let next: Arc<Vec<AtomicU64>> = Arc::new(families.iter().map(|_| AtomicU64::new(0)).collect());
    let known_keys: Arc<HashSet<String>> = Arc::new(known.iter().map(|k| k.key.clone()).collect());
    let fresh = Arc::new(AtomicU64::new(0));
    let fam_stats: Arc<Vec<[AtomicU64; 3]>> = Arc::new(
        families.iter().map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect(),
    );

    let mut handles = Vec::new();
    for t in 0..o.jobs {
        let families = families.clone();
        let slots = slots.clone();
        let stop = stop.clone();
        let done = done.clone();
        let total = total.clone();
        let next = next.clone();
        let known_keys = known_keys.clone();
        let fresh = fresh.clone();
        let fam_stats = fam_stats.clone();
        let jobs = o.jobs as u64;
        handles.push(
            std::thread::Builder::new()
                .name("explorer".to_owned())
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new(t, false);
                    let mut located = Vec::new();
                    for (fi, f) in families.iter().enumerate() {
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let pos = next[fi].load(Ordering::Relaxed);
                            if pos >= f.size {
                                break;
                            }
                            let chunk = ((f.size - pos) / (jobs * 16)).max(1).min(4096);
                            let start = next[fi].fetch_add(chunk, Ordering::Relaxed);
                            let end = (start + chunk).min(f.size);
                            let mut i = start;
                            while i < end {
                                slots.set(t, fi as u64, i, true);
                                let before = (ctx.states, ctx.transitions);
                                let seen = ctx.failures.len();
                                let r = run_one(f, i, &mut ctx);
                                fam_stats[fi][0].fetch_add(1, Ordering::Relaxed);
                                fam_stats[fi][1].fetch_add(ctx.states - before.0, Ordering::Relaxed);
                                fam_stats[fi][2].fetch_add(ctx.transitions - before.1, Ordering::Relaxed);
                                if let Err(m) = r {
                                    ctx.fail(format!("{}#{}", f.name, i), m);
                                }
                                if ctx.failures.len() == seen {
                                    ctx.validated += 1;
                                }
                                for k in seen..ctx.failures.len() {
                                    located.push((fi, i));
                                    if !known_keys.contains(&ctx.failures[k].key)
                                        && fresh.fetch_add(1, Ordering::Relaxed) >= 20
                                    {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                i += 1;
                            }
                        }
                    }
                    slots.set(t, 0, 0, false);
                    let mut total = total.lock().unwrap();
                    for (k, (fi, i)) in located.into_iter().enumerate() {
                        let f = &ctx.failures[k];
                        let mut c = Ctx::new(0, false);
                        c.failures.push(Failure { key: f.key.clone(), msg: f.msg.clone() });
                        total.push((fi, i, c));
                    }
                    ctx.failures.clear();
                    total.push((usize::max_value(), 0, ctx));
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap(),
        );
    }

    // Watchdog: a case that makes no progress is a hang of the code under test.
    let mut last: Vec<(u64, (u64, u64, bool), Instant)> =
        (0..o.jobs).map(|_| (0, (0, 0, false), Instant::now())).collect();
    while done.load(Ordering::SeqCst) < o.jobs {
        std::thread::sleep(Duration::from_millis(20));
        if handles.len() == 0 {
            break;
        }
        for t in 0..o.jobs {
            let hb = HEARTBEAT[t * 8].load(Ordering::Relaxed);
            let s = slots.get(t);
            if hb != last[t].0 || s != last[t].1 {
                last[t] = (hb, s, Instant::now());
            } else if s.2 && last[t].2.elapsed() > Duration::from_secs(o.hang_secs) {
                let f = &families[s.0 as usize];
                let replay = format!("{}/{}.replay", o.replay_dir, o.property);
                let body = serde_json::json!({
                    "property": o.property, "family": f.name, "index": s.1,
                    "key": format!("{}#{}", f.name, s.1),
                    "message": format!("no progress for {} s: the code under test hangs", o.hang_secs),
                    "how": format!("./check {} --replay {}", o.property, replay),
                });
                fs::write(&replay, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                println!("hang in family {} case {}", f.name, s.1);
                println!("VIOLATION property={} replay={}", o.property, replay);
                std::io::stdout().flush().unwrap();
                unsafe { _exit(1) }
            }
        }
    }
    for h in handles {
        h.join().unwrap();
    }

    let mut states = 0;
    let mut transitions = 0;
    let mut validated = 0;
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut failures: Vec<(usize, u64, Failure)> = Vec::new();
    let mut overflow = 0u64;
    let parts = std::mem::replace(&mut *total.lock().unwrap(), Vec::new());
    for (fi, i, ctx) in parts {
        if fi == usize::max_value() {
            states += ctx.states;
            transitions += ctx.transitions;
            validated += ctx.validated;
            outcomes.extend(ctx.outcomes);
            for (k, v) in ctx.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            if samples.len() < 6 {
                samples.extend(ctx.samples.into_iter().take(2));
            }
            overflow += ctx.n_failures;
        } else {
            for f in ctx.failures {
                failures.push((fi, i, f));
            }
        }
    }
    failures.sort_by(|a, b| (a.0, a.1, a.2.key.len(), &a.2.key).cmp(&(b.0, b.1, b.2.key.len(), &b.2.key)));
    let mut known_hit: BTreeMap<&str, u64> = BTreeMap::new();
    let mut violations = Vec::new();
    for (fi, i, f) in &failures {
        match known.iter().find(|k| k.key == f.key) {
            Some(k) => *known_hit.entry(k.key.as_str()).or_insert(0) += 1,
            None => violations.push((*fi, *i, f)),
        }
    }
    let complete = !stop.load(Ordering::Relaxed);
    let fam_json: Vec<_> = families
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let s = &fam_stats[i];
            serde_json::json!({
                "family": f.name, "bounds": f.bounds, "cases": f.size,
                "cases_visited": s[0].load(Ordering::Relaxed),
                "states": s[1].load(Ordering::Relaxed),
                "executions": s[2].load(Ordering::Relaxed),
            })
        })
        .collect();
    let wall = started.elapsed().as_millis() as f64 / 1000.0;
    if let Some(ref path) = o.evidence {
        let mut cov = serde_json::json!({
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": validated,
            "distinct_outcomes": outcomes.len() as u64,
            "exhaustive": complete && o.only.is_none(),
            "families": fam_json,
            "samples": samples,
            "known_findings_seen": known_hit.len() as u64,
        });
        for (k, v) in &counters {
            cov[*k] = serde_json::json!(v);
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = serde_json::json!({
            "property": o.property,
            "tier": match o.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": notes.assumptions,
            "wall_s": wall,
            "violations": violations.len() as u64,
        });
        fs::write(path, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    }
    println!(
        "{} {:?}: {} states, {} executions judged, {} distinct outcomes, {} families, {:.1} s",
        o.property, o.tier, states, transitions, outcomes.len(), families.len(), wall
    );
    if std::env::var("MC_STATS").is_ok() {
        for f in &fam_json {
            println!("  {}", f);
        }
        println!("  counters {:?}", counters);
    }
    for k in &known {
        if known_hit.contains_key(k.key.as_str()) {
            println!("KNOWN-FINDING: property={} {}", o.property, k.what);
        }
    }
    if violations.is_empty() {
        if overflow > failures.len() as u64 {
            println!("too many failures to attribute ({})", overflow);
            std::process::exit(2);
        }
        std::process::exit(0);
    }
    for (n, (fi, i, f)) in violations.iter().enumerate().take(5) {
        let f_name = &families[*fi].name;
        let replay = format!("{}/{}.{}.replay", o.replay_dir, o.property, n);
        let body = serde_json::json!({
            "property": o.property, "family": f_name, "index": i, "key": f.key, "message": f.msg,
            "how": format!("./check {} --replay {}", o.property, replay),
        });
        fs::write(&replay, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("violated by {}\n  {}", f.key, f.msg.replace("\n", "\n  "));
        println!("VIOLATION property={} replay={}", o.property, replay);
    }
    std::process::exit(1);
}

fn run_one(f: &Family, i: u64, ctx: &mut Ctx) -> Result<(), String> {
    ctx.beat();
    let r = panic::catch_unwind(AssertUnwindSafe(|| (f.run)(i, ctx)));
    match r {
        Ok(()) => Ok(()),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(format!("panic: {}", m.unwrap_or_else(|| "?".to_owned())))
        }
    }
}
