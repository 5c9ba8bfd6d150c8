//! C21: the file index converges to the state of the file system.
//!
//! The real `FileIndex` runs on real files in a scratch directory.  Its
//! notifications come from notify's own debouncer, but the kernel's events are
//! those of the operations the explorer performs, and the explorer decides when
//! timers fire, when events are delivered and at which points of the work of the
//! index (before a root is watched, before and after a file is read, while it
//! waits for events) the operations happen.  For every script of operations all
//! such schedules are executed.

use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use indxr::{FileIndex, IndexableFileSet};
use mccore::{Ctx, Family, Tier};
use notify::sim::{Change, World};
use notify::DebouncedEvent;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Writes a file, new or not.
    Write(&'static str),
    /// Writes a file which the mapper finds nothing in.
    WriteNone(&'static str),
    Remove(&'static str),
    Rename(&'static str, &'static str),
    Mkdir(&'static str),
    /// Makes a directory with a file `y.rs` and a directory with `z.rs` in it before
    /// anybody can watch it.
    MkdirFull(&'static str),
    /// Makes a directory with so many files, some of them in directories in it, and with
    /// so many directories inside of one another.
    MkdirMany(&'static str, usize),
    Rmtree(&'static str),
    /// Changes permissions.
    Chmod(&'static str),
    /// The watching library reports an error.
    Error,
}
use self::Op::*;

/// The files which are there at first: `r` and `s` are roots, `o` is not.
const TREE: &[&str] = &["r/a.rs", "r/n.txt", "r/d/b.rs", "r/d/e/x.rs", "s/a.rs", "o/x.rs", "o/g/c.rs"];

fn full_menu() -> Vec<Op> {
    vec![
        Write("r/a.rs"), Write("r/d/b.rs"), Write("r/c.rs"), Write("r/d/c.rs"), Write("r/n.txt"), Write("r/.rs"), Write("r/x.RS"),
        WriteNone("r/a.rs"), WriteNone("r/d/b.rs"),
        Remove("r/a.rs"), Remove("r/d/b.rs"), Remove("r/d/e/x.rs"),
        Rename("r/a.rs", "r/c.rs"), Rename("r/c.rs", "r/a.rs"), Rename("r/a.rs", "r/d/b.rs"), Rename("r/d/b.rs", "r/a.rs"),
        Rename("r/a.rs", "r/n.txt"), Rename("r/n.txt", "r/c.rs"), Rename("r/n.txt", "r/a.rs"), Rename("r/d/b.rs", "r/d/c.rs"),
        Rename("r/d", "r/f"), Rename("r/f", "r/d"), Rename("r/d/e", "r/e"), Rename("r/d", "r/c.rs"), Rename("r/c.rs", "r/d"),
        Rename("r/d", "o/d"), Rename("o/d", "r/d"), Rename("o/g", "r/g"), Rename("o/g", "r/d"), Rename("r/g", "o/g"), Rename("o/x.rs", "r/c.rs"), Rename("o/x.rs", "r/a.rs"),
        Rename("r/a.rs", "o/a.rs"),
        Rmtree("r/d"), Rmtree("r/f"), Mkdir("r/d"), Mkdir("r/f"), MkdirFull("r/f"), MkdirFull("r/d"), MkdirFull("r/a.rs"), Write("r/f/y.rs"),
        Write("r/d"), Chmod("r/a.rs"), Chmod("r/c.rs"), Chmod("r/d/b.rs"), Chmod("r/d"), Chmod("r/f"), Error,
    ]
}

fn small_menu() -> Vec<Op> {
    vec![
        Write("r/a.rs"), Remove("r/a.rs"), Rename("r/a.rs", "r/d/b.rs"), Rename("r/d/b.rs", "r/a.rs"), Write("r/d/b.rs"), WriteNone("r/a.rs"),
        Rename("r/d", "r/f"), Rename("r/f", "r/d"), Rmtree("r/d"), MkdirFull("r/d"), MkdirFull("r/a.rs"), Write("r/d"), Rename("o/g", "r/d"), Rename("r/d", "o/g"),
        Rename("r/d", "r/a.rs"), Chmod("r/a.rs"), Chmod("r/d/b.rs"), Rename("o/x.rs", "r/a.rs"), Error,
    ]
}

fn tiny_menu() -> Vec<Op> {
    vec![
        Write("r/a.rs"), Remove("r/a.rs"), Rename("r/a.rs", "r/d/b.rs"), Rename("r/d/b.rs", "r/a.rs"), WriteNone("r/a.rs"),
        Rename("r/d", "r/f"), Rmtree("r/d"), MkdirFull("r/d"), Rename("r/d", "o/g"), Error,
    ]
}

fn two_roots_menu() -> Vec<Op> {
    vec![
        Write("r/a.rs"), Write("s/a.rs"), Remove("s/a.rs"), Rename("r/a.rs", "s/a.rs"), Rename("s/a.rs", "r/a.rs"), Rename("r/d", "s/d"), Rename("s/d", "r/d"),
        Rename("r/d/b.rs", "s/b.rs"), Rename("s/b.rs", "r/d/b.rs"), Rename("o/x.rs", "s/x.rs"), Rename("o/g", "s/d"), Rmtree("s/d"), Write("s/d/b.rs"), MkdirFull("s/d"),
    ]
}

fn nested_menu() -> Vec<Op> {
    vec![
        Write("r/a.rs"), Remove("r/a.rs"), Write("r/d/b.rs"), Remove("r/d/b.rs"), Rename("r/a.rs", "r/d/c.rs"), Rename("r/d/b.rs", "r/c.rs"), Rename("r/d/e", "r/e"),
        Rename("r/e", "r/d/e"), Rmtree("r/d/e"), MkdirFull("r/d/f"), Rename("r/d/c.rs", "r/a.rs"), Rename("o/g", "r/d/g"),
    ]
}

/// One execution.
struct Run {
    choices: Vec<(usize, usize)>,
    pos: usize,
    script: Vec<Op>,
    next: usize,
    log: Vec<String>,
    seq: u64,
    written: u64,
    /// When a file last changed, and whether that was to be notified.
    changed: HashMap<PathBuf, (u64, bool)>,
    /// Which events were delivered when; none means everything may have changed.
    delivered: Vec<(u64, Option<Vec<PathBuf>>)>,
    /// The operation whose notifications are lost.
    lossy: Option<usize>,
}

struct Shared {
    base: PathBuf,
    world: Mutex<Option<Arc<World>>>,
    run: Mutex<Run>,
    /// Files which are only there to find out what the index has dealt with, in the
    /// order in which a walk meets them, and how often each was read.
    markers: Vec<PathBuf>,
    ack: Mutex<Vec<u64>>,
    acked: Condvar,
    dying: AtomicBool,
}

impl Run {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.choices.len() {
            self.choices.push((0, n));
        }
        let c = self.choices[self.pos].0.min(n - 1);
        self.choices[self.pos].1 = n;
        self.pos += 1;
        c
    }
}

fn files_under(p: &Path, out: &mut Vec<PathBuf>) {
    if p.is_dir() {
        let mut entries: Vec<PathBuf> = fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
        entries.sort();
        for e in entries {
            files_under(&e, out)
        }
    } else if p.exists() {
        out.push(p.to_owned())
    }
}

fn remove_tree(p: &Path, world: &World, report: bool) {
    if p.is_dir() {
        let mut entries: Vec<PathBuf> = fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
        entries.sort();
        for e in entries {
            remove_tree(&e, world, report)
        }
        fs::remove_dir(p).unwrap();
    } else {
        fs::remove_file(p).unwrap();
    }
    if report {
        world.report(&Change::Removed(p.to_owned()))
    }
}

impl Shared {
    fn world(&self) -> Arc<World> {
        self.world.lock().unwrap().clone().unwrap()
    }

    /// Performs the next operation.
    fn perform(&self, run: &mut Run, at: &str) {
        let world = self.world();
        let op = run.script[run.next];
        let lost = run.lossy == Some(run.next);
        run.next += 1;
        run.seq += 1;
        run.log.push(format!("{:?} ({})", op, at));
        let p = |s: &str| self.base.join(s);
        let mut touched: Vec<PathBuf> = Vec::new();
        let report = |c: Change| if !lost { world.report(&c) };
        match op {
            Write(f) | WriteNone(f) => {
                let f = p(f);
                let new = !f.exists();
                run.written += 1;
                let text = if let WriteNone(_) = op { format!("!{}", run.written) } else { format!("version {}", run.written) };
                fs::write(&f, text).unwrap();
                touched.push(f.clone());
                report(if new { Change::Created(f) } else { Change::Written(f) });
            }
            Remove(f) => {
                let f = p(f);
                fs::remove_file(&f).unwrap();
                touched.push(f.clone());
                report(Change::Removed(f));
            }
            Chmod(f) => {
                use std::os::unix::fs::PermissionsExt;
                let f = p(f);
                let mode = fs::metadata(&f).unwrap().permissions().mode();
                fs::set_permissions(&f, fs::Permissions::from_mode(mode ^ 0o10)).unwrap();
                report(Change::Attributes(f));
            }
            Error => world.error(),
            Rename(a, b) => {
                let (a, b) = (p(a), p(b));
                files_under(&a, &mut touched);
                fs::rename(&a, &b).unwrap();
                files_under(&b, &mut touched);
                report(Change::Renamed(a, b));
            }
            Mkdir(d) => {
                let d = p(d);
                fs::create_dir(&d).unwrap();
                report(Change::CreatedDir(d));
            }
            MkdirFull(d) => {
                let d = p(d);
                fs::create_dir(&d).unwrap();
                fs::create_dir(d.join("z")).unwrap();
                run.written += 1;
                fs::write(d.join("y.rs"), format!("version {}", run.written)).unwrap();
                fs::write(d.join("z/z.rs"), format!("version {}", run.written)).unwrap();
                files_under(&d, &mut touched);
                report(Change::CreatedDir(d));
            }
            MkdirMany(d, n) => {
                let d = p(d);
                fs::create_dir(&d).unwrap();
                let mut deep = d.clone();
                run.written += 1;
                for i in 0..n {
                    let dir = if i % 4 == 3 { d.join(format!("k{}", i % 8)) } else { d.clone() };
                    fs::create_dir_all(&dir).unwrap();
                    fs::write(dir.join(format!("m{}.rs", i)), format!("version {}", run.written)).unwrap();
                    deep.push("e");
                }
                fs::create_dir_all(&deep).unwrap();
                fs::write(deep.join("x.rs"), format!("version {}", run.written)).unwrap();
                files_under(&d, &mut touched);
                report(Change::CreatedDir(d));
            }
            Rmtree(d) => {
                let d = p(d);
                files_under(&d, &mut touched);
                remove_tree(&d, &world, !lost);
            }
        }
        let seq = run.seq;
        for t in touched {
            let covered = world.covered(&t);
            run.changed.insert(t, (seq, covered));
        }
        if lost {
            world.overflow();
        }
    }

    /// A point of the work of the index at which the file system may change.
    fn point(&self, at: &str) {
        if self.dying.load(Ordering::SeqCst) {
            return;
        }
        let mut run = self.run.lock().unwrap();
        let world = self.world();
        while run.next < run.script.len() {
            let timers = world.timers();
            let c = run.choose(timers + 2);
            if c == 0 {
                return;
            }
            for _ in 0..c - 1 {
                world.fire();
            }
            if c > 1 {
                run.log.push(format!("{} timer(s) fire ({})", c - 1, at));
            }
            self.perform(&mut run, at);
        }
    }

    fn map(&self, path: &Path) -> Option<String> {
        if let Some(k) = self.markers.iter().position(|m| m == path) {
            if self.dying.load(Ordering::SeqCst) {
                std::panic::resume_unwind(Box::new("done"));
            }
            self.ack.lock().unwrap()[k] += 1;
            self.acked.notify_all();
            return Some("marker".to_owned());
        }
        let name = path.strip_prefix(&self.base).unwrap_or(path).display().to_string();
        self.point(&format!("before reading {}", name));
        let r = match fs::read_to_string(path) {
            Ok(ref s) if s.starts_with('!') => None,
            r => r.ok(),
        };
        self.point(&format!("after reading {}", name));
        r
    }

    /// Waits until the index has dealt with all events it was sent: it is told that
    /// the markers have changed, one after another, in the order opposite to that in
    /// which a walk over all files meets them.  After so many markers as there were
    /// walks the next one is read because of its event.
    fn settle(&self, walks: usize) -> Result<(), String> {
        let world = self.world();
        let deadline = Instant::now() + Duration::from_secs(20);
        for k in (0..self.markers.len()).rev().take(walks + 1) {
            let before = self.ack.lock().unwrap()[k];
            fs::write(&self.markers[k], format!("marker {}", before)).unwrap();
            while !world.watched() {
                if world.deserted() {
                    return Err("the index has stopped watching".to_owned());
                }
                if Instant::now() > deadline {
                    return Err("the index watches nothing".to_owned());
                }
                std::thread::yield_now();
            }
            if !world.inject(DebouncedEvent::Write(self.markers[k].clone())) {
                return Err("the index has stopped listening".to_owned());
            }
            let mut ack = self.ack.lock().unwrap();
            while ack[k] == before {
                ack = self.acked.wait_timeout(ack, Duration::from_millis(50)).unwrap().0;
                if ack[k] == before && world.deserted() {
                    return Err("the index has stopped watching".to_owned());
                }
                if ack[k] == before && Instant::now() > deadline {
                    return Err("the index does not deal with its events".to_owned());
                }
            }
        }
        Ok(())
    }

    /// Delivers an event, and tells how many walks it may cause.
    fn deliver(&self, run: &mut Run) -> Result<usize, String> {
        run.seq += 1;
        let seq = run.seq;
        if let Some((name, paths, heard)) = self.world().deliver() {
            run.log.push(format!("event {}", name.replace(&self.base.display().to_string(), "")));
            let rescan = name == "Rescan";
            run.delivered.push((seq, if rescan { None } else { Some(paths) }));
            if !heard {
                return Err("the index has stopped listening".to_owned());
            }
            return Ok(if rescan { ROOTS } else { 1 });
        }
        Ok(1)
    }
}

struct Setup {
    roots: &'static [&'static str],
    script: Vec<Op>,
    lossy: Option<usize>,
}

/// Whether the operations are possible, in this order.
fn possible(script: &[Op]) -> bool {
    let mut files: BTreeMap<String, ()> = TREE.iter().map(|s| (s.to_string(), ())).collect();
    let mut dirs: BTreeMap<String, ()> = ["r", "s", "o", "r/d", "r/d/e", "o/g"].iter().map(|s| (s.to_string(), ())).collect();
    fn parent(s: &str) -> &str {
        &s[..s.rfind('/').unwrap()]
    }
    for op in script {
        match *op {
            Write(f) | WriteNone(f) => {
                if dirs.contains_key(f) || !dirs.contains_key(parent(f)) {
                    return false;
                }
                files.insert(f.to_string(), ());
            }
            Remove(f) => {
                if files.remove(f).is_none() {
                    return false;
                }
            }
            Chmod(f) => {
                if !files.contains_key(f) && !dirs.contains_key(f) {
                    return false;
                }
            }
            Error => (),
            Mkdir(d) | MkdirFull(d) | MkdirMany(d, _) => {
                if files.contains_key(d) || dirs.contains_key(d) || !dirs.contains_key(parent(d)) {
                    return false;
                }
                dirs.insert(d.to_string(), ());
                if let MkdirFull(_) = *op {
                    dirs.insert(format!("{}/z", d), ());
                    files.insert(format!("{}/y.rs", d), ());
                    files.insert(format!("{}/z/z.rs", d), ());
                }
                if let MkdirMany(_, n) = *op {
                    for i in (0..n).filter(|i| i % 4 != 3) {
                        files.insert(format!("{}/m{}.rs", d, i), ());
                    }
                }
            }
            Rmtree(d) => {
                if !dirs.contains_key(d) {
                    return false;
                }
                let sub = format!("{}/", d);
                dirs.remove(d);
                dirs = dirs.into_iter().filter(|(k, _)| !k.starts_with(&sub)).collect();
                files = files.into_iter().filter(|(k, _)| !k.starts_with(&sub)).collect();
            }
            Rename(a, b) => {
                if dirs.contains_key(b) || !dirs.contains_key(parent(b)) {
                    return false;
                }
                if files.contains_key(a) {
                    files.remove(a);
                    files.insert(b.to_string(), ());
                } else if dirs.contains_key(a) {
                    let sub = format!("{}/", a);
                    if files.contains_key(b) || b.starts_with(&sub) {
                        return false;
                    }
                    let moved = |k: &String| if k == a || k.starts_with(&sub) { format!("{}{}", b, &k[a.len()..]) } else { k.clone() };
                    files = files.keys().map(|k| (moved(k), ())).collect();
                    dirs = dirs.keys().map(|k| (moved(k), ())).collect();
                } else {
                    return false;
                }
            }
        }
    }
    true
}

/// The most roots which can name the same directory, and be walked at once.
const ROOTS: usize = 2;

fn walk_is_in_order_of_creation(base: &Path) -> bool {
    static KNOWN: AtomicU64 = AtomicU64::new(0);
    if KNOWN.load(Ordering::SeqCst) == 0 {
        let d = base.join("order");
        fs::create_dir(&d).unwrap();
        fs::write(d.join("1"), "").unwrap();
        fs::write(d.join("2"), "").unwrap();
        let first = fs::read_dir(&d).unwrap().next().unwrap().unwrap().path();
        fs::remove_dir_all(&d).unwrap();
        KNOWN.store(if first.ends_with("1") { 1 } else { 2 }, Ordering::SeqCst);
    }
    KNOWN.load(Ordering::SeqCst) == 1
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);

pub fn scratch() -> PathBuf {
    let n = SCRATCH.fetch_add(1, Ordering::SeqCst);
    let name = format!("mcindxr-{}-{}", std::process::id(), n);
    for dir in &["/dev/shm", "/tmp"] {
        let p = Path::new(dir).join(&name);
        if fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("no place for scratch files")
}

enum Verdict {
    Fine { excused: usize },
    Wrong(String),
}

fn execute(setup: &Setup, choices: Vec<(usize, usize)>) -> (Verdict, Vec<(usize, usize)>, Vec<String>) {
    let base = scratch();
    for d in &["r/d/e", "s", "o/g"] {
        fs::create_dir_all(base.join(d)).unwrap();
    }
    for f in TREE {
        fs::write(base.join(f), format!("first {}", f)).unwrap();
    }
    // So that the markers are met in the order of their names.
    let ascending = walk_is_in_order_of_creation(&base);
    for k in 0..ROOTS + 1 {
        let k = if ascending { k } else { ROOTS - k };
        fs::write(base.join(format!("r/zz{}.rs", k)), "marker").unwrap();
    }
    let mut markers: Vec<PathBuf> = fs::read_dir(base.join("r")).unwrap().map(|e| e.unwrap().path()).collect();
    markers.retain(|p| p.file_name().unwrap().to_str().unwrap().starts_with("zz"));
    let shared = Arc::new(Shared {
        base: base.clone(),
        world: Mutex::new(None),
        run: Mutex::new(Run {
            choices,
            pos: 0,
            script: setup.script.clone(),
            next: 0,
            log: Vec::new(),
            seq: 0,
            written: 0,
            changed: HashMap::new(),
            delivered: Vec::new(),
            lossy: setup.lossy,
        }),
        ack: Mutex::new(vec![0; markers.len()]),
        markers,
        acked: Condvar::new(),
        dying: AtomicBool::new(false),
    });
    let s2 = Arc::downgrade(&shared);
    let world = World::new(base.clone(), Arc::new(move |path| {
        if let Some(s) = s2.upgrade() {
            let name = path.strip_prefix(&s.base).unwrap_or(path).display().to_string();
            s.point(&format!("before watching {}", name))
        }
    }));
    *shared.world.lock().unwrap() = Some(world.clone());
    let roots: Vec<PathBuf> = setup.roots.iter().map(|r| base.join(r)).collect();
    let s3 = shared.clone();
    let index = FileIndex::new(IndexableFileSet::new(roots.clone(), "rs"), Box::new(move |p| s3.map(p)));
    let res = schedule(&shared, &world, &index, &roots);

    shared.dying.store(true, Ordering::SeqCst);
    world.inject(DebouncedEvent::Write(shared.markers[0].clone()));
    let (choices, log) = {
        let mut run = shared.run.lock().unwrap();
        (std::mem::replace(&mut run.choices, Vec::new()), std::mem::replace(&mut run.log, Vec::new()))
    };
    // The thread of the index still needs the marker.
    let deadline = Instant::now() + Duration::from_secs(5);
    while world.watched() && Instant::now() < deadline {
        std::thread::yield_now();
    }
    world.end();
    *shared.world.lock().unwrap() = None;
    let _ = fs::remove_dir_all(&base);
    let verdict = match res {
        Ok(excused) => Verdict::Fine { excused },
        Err(m) => Verdict::Wrong(m.replace(&base.display().to_string(), "")),
    };
    (verdict, choices, log)
}

fn schedule(shared: &Arc<Shared>, world: &Arc<World>, index: &FileIndex<String>, roots: &[PathBuf]) -> Result<usize, String> {
    shared.settle(ROOTS)?;
    loop {
        let mut run = shared.run.lock().unwrap();
        if run.next == run.script.len() {
            break;
        }
        let timers = world.timers();
        let f = run.choose(timers + 1);
        for _ in 0..f {
            world.fire();
        }
        if f > 0 {
            run.log.push(format!("{} timer(s) fire (idle)", f));
        }
        let ready = world.ready();
        let n = run.choose(ready + 1);
        for _ in 0..n {
            let walks = shared.deliver(&mut run)?;
            drop(run);
            shared.settle(walks)?;
            run = shared.run.lock().unwrap();
        }
        if run.next < run.script.len() {
            shared.perform(&mut run, "idle");
        }
    }
    while world.fire() {}
    while world.ready() > 0 {
        let walks = shared.deliver(&mut shared.run.lock().unwrap())?;
        shared.settle(walks)?;
    }

    // What the index has, and what it should have.
    let mut seen: Vec<(PathBuf, String)> = Vec::new();
    index.process_files(&mut |f| {
        seen.push((f.path.clone(), f.value.clone()));
        false
    });
    let total = seen.len();
    let mut calls = 0;
    index.process_files(&mut |_| {
        calls += 1;
        calls == 2
    });
    if calls != total.min(2) {
        return Err(format!("{} files are given to one who wants two of {}", calls, total));
    }
    let mut actual = BTreeMap::new();
    for (p, v) in seen {
        if actual.insert(p.clone(), v).is_some() {
            return Err(format!("{} is there twice", p.display()));
        }
    }
    let mut expected = BTreeMap::new();
    for r in roots {
        let mut files = Vec::new();
        files_under(r, &mut files);
        for f in files {
            let name = f.file_name().unwrap().to_str().unwrap();
            if name.starts_with("zz") {
                expected.insert(f, "marker".to_owned());
            } else if name.ends_with(".rs") && name != ".rs" {
                let text = fs::read_to_string(&f).unwrap();
                if !text.starts_with('!') {
                    expected.insert(f, text);
                }
            }
        }
    }
    let run = shared.run.lock().unwrap();
    let mut excused = 0;
    let mut paths: Vec<&PathBuf> = expected.keys().chain(actual.keys()).collect();
    paths.sort();
    paths.dedup();
    for p in paths {
        if expected.get(p) == actual.get(p) {
            continue;
        }
        // The debouncer may have dropped what it was told: nothing after the last
        // change of the file says that anything changed there.
        if let Some(&(t, true)) = run.changed.get(p) {
            let told = run.delivered.iter().any(|(s, what)| {
                *s > t && match what {
                    None => true,
                    Some(ps) => ps.iter().any(|q| p.starts_with(q)),
                }
            });
            if !told {
                excused += 1;
                continue;
            }
        }
        return Err(format!("{}: the index has {:?}, should have {:?}", p.display(), actual.get(p), expected.get(p)));
    }
    Ok(excused)
}

const MANY: usize = 8;

const MAX_SCHEDULES: usize = 200_000;

fn explore(setup: &Setup, ctx: &mut Ctx) {
    if !possible(&setup.script) {
        ctx.count("impossible_scripts", 1);
        return;
    }
    ctx.state();
    let mut choices: Vec<(usize, usize)> = Vec::new();
    let mut n = 0;
    loop {
        let (verdict, mut made, log) = execute(setup, choices.clone());
        ctx.transition();
        n += 1;
        match verdict {
            Verdict::Fine { excused } => {
                ctx.outcome(mccore::util::fnv(log.join("\n").as_bytes()));
                if excused > 0 {
                    ctx.count("histories_with_changes_the_debouncer_drops", 1);
                    ctx.sample(|| format!("dropped by the debouncer: {:?}", log));
                }
            }
            Verdict::Wrong(m) => {
                // Once more.
                let (again, _, _) = execute(setup, made.clone());
                let key = format!("roots {:?}, {:?}{}", setup.roots, setup.script, match setup.lossy {
                    Some(k) => format!(", the queue overflows at {}", k),
                    None => String::new(),
                });
                match again {
                    Verdict::Wrong(_) => ctx.fail(key, format!("{}\n  history: {}", m, log.join("; "))),
                    Verdict::Fine { .. } => ctx.fail(key, format!("(not on the second run) {}\n  history: {}", m, log.join("; "))),
                }
                return;
            }
        }
        while let Some(&(c, k)) = made.last() {
            if c + 1 < k {
                break;
            }
            made.pop();
        }
        match made.last_mut() {
            None => break,
            Some(l) => l.0 += 1,
        }
        choices = made;
        if n >= MAX_SCHEDULES {
            ctx.count("scripts_cut_off", 1);
            break;
        }
    }
    ctx.count("schedules", n as u64);
}

fn scripts(name: &str, bounds: &str, roots: &'static [&'static str], menu: Vec<Op>, len: usize, lossy: bool) -> Family {
    let k = menu.len() as u64;
    let variants = if lossy { len as u64 } else { 1 };
    let size = k.pow(len as u32) * variants;
    let text = format!("{}; {} operations, scripts of {}, all schedules", bounds, k, len);
    Family::new(name.to_owned(), text, size, move |i, ctx| {
        let mut r = mccore::util::Radix(i);
        let lossy = if lossy { Some(r.take(len)) } else { None };
        let script = (0..len).map(|_| menu[r.take(menu.len())]).collect();
        explore(&Setup { roots, script, lossy }, ctx)
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![
        scripts("one", "one root", &["r"], full_menu(), 1, false),
        scripts("two", "one root", &["r"], full_menu(), 2, false),
        scripts("two-roots", "two roots", &["r", "s"], two_roots_menu(), 2, false),
        scripts("nested-roots", "a root and a directory in it", &["r", "r/d"], nested_menu(), tier.pick(1, 2), false),
        scripts("same-root", "a root named twice", &["r", "r"], nested_menu(), 1, false),
        scripts("missing-root", "a root which does not exist, and one which does", &["missing", "r"], small_menu(), tier.pick(1, 2), false),
        scripts("missing-last", "a root, and one which does not exist", &["r", "missing"], small_menu(), 1, false),
        scripts("overflow", "the notifications of one operation are lost", &["r"], small_menu(), 2, true),
        scripts("overflow-roots", "the notifications of one operation are lost, two roots", &["r", "s"], two_roots_menu(), 1, true),
    ];
    // Large directories.
    let sizes: Vec<usize> = (1..tier.pick(10, 20)).chain(vec![33, 65, tier.pick(129, 257)]).collect();
    v.push(Family::new(
        "many",
        format!("directories of 1 to {} files, up to as deep, made, moved and removed in {} ways, all schedules", sizes[sizes.len() - 1], MANY),
        (sizes.len() * MANY) as u64,
        move |i, ctx| {
            let n = sizes[sizes.len() - 1 - i as usize / MANY];
            let many = |d| MkdirMany(d, n);
            let script = match i as usize % MANY {
                0 => vec![many("r/m")],
                1 => vec![many("o/m"), Rename("o/m", "r/m")],
                2 if n < 70 => vec![many("r/m"), Rename("r/m", "o/m")],
                3 if n < 70 => vec![many("r/m"), Rename("r/m", "r/d/m")],
                4 if n < 20 => vec![many("r/m"), Rmtree("r/m")],
                5 if n < 70 => vec![many("r/m"), Write("r/m/m0.rs")],
                6 if n < 20 => vec![many("r/m"), many("r/d/m")],
                7 if n < 70 => vec![many("r/m"), Error],
                _ => return,
            };
            explore(&Setup { roots: &["r"], script, lossy: None }, ctx)
        },
    ));
    if tier == Tier::Thorough {
        v.push(scripts("three", "one root", &["r"], tiny_menu(), 3, false));
    }
    v
}
