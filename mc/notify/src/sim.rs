//! The simulated kernel.  A harness creates a `World` for a scratch directory,
//! reports what happened to the files below it, and decides when timers fire and
//! when events reach the client.  Watchers of paths which are in no world watch
//! nothing.

use super::debounce::Debounce;
use super::{op, DebouncedEvent, Error, RawEvent, RecursiveMode, Result, Watcher};

use std::collections::VecDeque;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::Sender;
use std::sync::{Arc, Mutex, Once};
use std::time::Duration;

type Outbox = Arc<Mutex<VecDeque<(Sender<DebouncedEvent>, DebouncedEvent)>>>;

/// Where a debouncer sends its events: the outbox of its world.
#[derive(Clone)]
pub struct Tx {
    client: Sender<DebouncedEvent>,
    outbox: Outbox,
    clock: Arc<AtomicU64>,
}

impl Tx {
    pub fn send(&self, e: DebouncedEvent) -> ::std::result::Result<(), ()> {
        self.outbox.lock().unwrap().push_back((self.client.clone(), e));
        Ok(())
    }
    pub fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
}

struct Watching {
    id: usize,
    paths: Vec<(PathBuf, bool)>,
    client: Sender<DebouncedEvent>,
    debounce: Debounce,
}

fn covers(paths: &[(PathBuf, bool)], path: &Path) -> bool {
    paths.iter().any(|(p, recursive)| {
        if *recursive { path != p && path.starts_with(p) } else { path.parent() == Some(p) }
    })
}

/// Called before a path is watched.
type Hook = Arc<dyn Fn(&Path) + Send + Sync>;

pub struct World {
    prefix: PathBuf,
    hook: Hook,
    watching: Mutex<Vec<Watching>>,
    outbox: Outbox,
    clock: Arc<AtomicU64>,
    ids: AtomicUsize,
    ended: AtomicUsize,
}

static WORLDS_INIT: Once = Once::new();
static mut WORLDS: Option<Mutex<Vec<Arc<World>>>> = None;

fn worlds() -> &'static Mutex<Vec<Arc<World>>> {
    WORLDS_INIT.call_once(|| unsafe { WORLDS = Some(Mutex::new(Vec::new())) });
    unsafe { WORLDS.as_ref().unwrap() }
}

fn world_of(path: &Path) -> Option<Arc<World>> {
    worlds().lock().unwrap().iter().find(|w| path.starts_with(&w.prefix)).cloned()
}

/// What the kernel reports.
#[derive(Clone, Debug, PartialEq)]
pub enum Change {
    /// A file appeared, with contents.
    Created(PathBuf),
    /// A directory appeared, or was moved here from a place not watched; what is in
    /// it appeared before it could be watched.
    CreatedDir(PathBuf),
    Written(PathBuf),
    Removed(PathBuf),
    /// Its permissions, times or owner changed.
    Attributes(PathBuf),
    Renamed(PathBuf, PathBuf),
}

impl World {
    pub fn new(prefix: PathBuf, hook: Hook) -> Arc<World> {
        let w = Arc::new(World {
            prefix,
            hook,
            watching: Mutex::new(Vec::new()),
            outbox: Arc::new(Mutex::new(VecDeque::new())),
            clock: Arc::new(AtomicU64::new(0)),
            ids: AtomicUsize::new(1),
            ended: AtomicUsize::new(0),
        });
        worlds().lock().unwrap().push(w.clone());
        w
    }

    pub fn end(self: &Arc<World>) {
        worlds().lock().unwrap().retain(|w| !Arc::ptr_eq(w, self));
        self.watching.lock().unwrap().clear();
        self.outbox.lock().unwrap().clear();
    }

    /// Nobody watches any more.
    pub fn deserted(&self) -> bool {
        self.ended.load(Ordering::SeqCst) > 0 && !self.watched()
    }

    pub fn watched(&self) -> bool {
        !self.watching.lock().unwrap().is_empty()
    }

    /// Whether somebody is told about changes of this path.
    pub fn covered(&self, path: &Path) -> bool {
        self.watching.lock().unwrap().iter().any(|w| covers(&w.paths, path))
    }

    pub fn report(&self, c: &Change) {
        for w in self.watching.lock().unwrap().iter_mut() {
            let d = &mut w.debounce;
            let paths = &w.paths;
            let covers = |p: &Path| covers(paths, p);
            match c {
                Change::Created(p) => if covers(p) {
                    d.event(p.clone(), op::CREATE, None);
                    d.event(p.clone(), op::WRITE, None);
                    d.event(p.clone(), op::CLOSE_WRITE, None);
                },
                Change::CreatedDir(p) => if covers(p) {
                    d.event(p.clone(), op::CREATE, None);
                },
                Change::Written(p) => if covers(p) {
                    d.event(p.clone(), op::WRITE, None);
                    d.event(p.clone(), op::CLOSE_WRITE, None);
                },
                Change::Removed(p) => if covers(p) {
                    d.event(p.clone(), op::REMOVE, None);
                },
                Change::Attributes(p) => if covers(p) {
                    d.event(p.clone(), op::CHMOD, None);
                },
                Change::Renamed(a, b) => match (covers(a), covers(b)) {
                    (true, true) => {
                        let cookie = Some(self.clock.fetch_add(1, Ordering::SeqCst) as u32);
                        d.event(a.clone(), op::RENAME, cookie);
                        d.event(b.clone(), op::RENAME, cookie);
                    }
                    (true, false) => d.event(a.clone(), op::REMOVE, None),
                    (false, true) => d.event(b.clone(), op::CREATE, None),
                    (false, false) => (),
                },
            }
        }
    }

    /// The queue of the kernel was full: every watcher is told that it missed something.
    pub fn overflow(&self) {
        for w in self.watching.lock().unwrap().iter() {
            self.outbox.lock().unwrap().push_back((w.client.clone(), DebouncedEvent::Rescan));
        }
    }

    /// Something went wrong in the watching library, but nothing is lost.
    pub fn error(&self) {
        for w in self.watching.lock().unwrap().iter() {
            let e = Error::Generic("an error".to_owned());
            self.outbox.lock().unwrap().push_back((w.client.clone(), DebouncedEvent::Error(e, None)));
        }
    }

    /// How many timers are running.
    pub fn timers(&self) -> usize {
        self.watching.lock().unwrap().iter().map(|w| w.debounce.timer.pending()).sum()
    }

    /// Lets the oldest timer fire.
    pub fn fire(&self) -> bool {
        let mut ws = self.watching.lock().unwrap();
        match ws.iter_mut().filter(|w| w.debounce.timer.pending() > 0).min_by_key(|w| w.debounce.timer.oldest()) {
            None => false,
            Some(w) => {
                w.debounce.timer.fire_oldest();
                true
            }
        }
    }

    /// How many events are ready for the client.
    pub fn ready(&self) -> usize {
        self.outbox.lock().unwrap().len()
    }

    /// Delivers the first event and tells what it was and whether anybody listens.
    pub fn deliver(&self) -> Option<(String, Vec<PathBuf>, bool)> {
        let (tx, e) = self.outbox.lock().unwrap().pop_front()?;
        let paths = match &e {
            DebouncedEvent::NoticeWrite(p) | DebouncedEvent::NoticeRemove(p) | DebouncedEvent::Create(p)
            | DebouncedEvent::Write(p) | DebouncedEvent::Chmod(p) | DebouncedEvent::Remove(p) => vec![p.clone()],
            DebouncedEvent::Rename(p, q) => vec![p.clone(), q.clone()],
            DebouncedEvent::Rescan | DebouncedEvent::Error(..) => vec![],
        };
        let name = format!("{:?}", e);
        let heard = tx.send(e).is_ok();
        Some((name, paths, heard))
    }

    /// Sends an event to the client of the first watcher past everything else.
    pub fn inject(&self, e: DebouncedEvent) -> bool {
        match self.watching.lock().unwrap().first() {
            Some(w) => w.client.send(e).is_ok(),
            None => false,
        }
    }
}

pub struct INotifyWatcher {
    client: Option<Sender<DebouncedEvent>>,
    world: Option<Arc<World>>,
    id: usize,
}

impl Watcher for INotifyWatcher {
    fn new_raw(_tx: Sender<RawEvent>) -> Result<INotifyWatcher> {
        Ok(INotifyWatcher { client: None, world: None, id: 0 })
    }

    fn new(tx: Sender<DebouncedEvent>, _delay: Duration) -> Result<INotifyWatcher> {
        Ok(INotifyWatcher { client: Some(tx), world: None, id: 0 })
    }

    fn watch<P: AsRef<Path>>(&mut self, path: P, recursive_mode: RecursiveMode) -> Result<()> {
        let path = path.as_ref();
        let path = if path.is_absolute() { path.to_owned() } else { ::std::env::current_dir().map_err(Error::Io)?.join(path) };
        let world = match world_of(&path) {
            Some(w) => w,
            None => return Ok(()),
        };
        (world.hook)(&path);
        ::std::fs::metadata(&path).map_err(Error::Io)?;
        let client = match &self.client {
            Some(c) => c.clone(),
            None => return Ok(()),
        };
        let recursive = recursive_mode.is_recursive();
        let mut ws = world.watching.lock().unwrap();
        if self.world.is_none() {
            self.world = Some(world.clone());
            self.id = world.ids.fetch_add(1, Ordering::SeqCst);
            let tx = Tx { client: client.clone(), outbox: world.outbox.clone(), clock: world.clock.clone() };
            ws.push(Watching { id: self.id, paths: Vec::new(), client, debounce: Debounce::new(tx) });
        }
        let id = self.id;
        if let Some(w) = ws.iter_mut().find(|w| w.id == id) {
            w.paths.push((path, recursive));
        }
        Ok(())
    }

    fn unwatch<P: AsRef<Path>>(&mut self, path: P) -> Result<()> {
        let id = self.id;
        let world = self.world.as_ref().ok_or(Error::WatchNotFound)?;
        let mut ws = world.watching.lock().unwrap();
        match ws.iter_mut().find(|w| w.id == id) {
            Some(w) => {
                w.paths.retain(|(p, _)| p != path.as_ref());
                Ok(())
            }
            None => Err(Error::WatchNotFound),
        }
    }
}

impl Drop for INotifyWatcher {
    fn drop(&mut self) {
        if let Some(world) = &self.world {
            let id = self.id;
            // What is still on its way is sent without regard to the watcher.
            if let Ok(mut ws) = world.watching.lock() {
                ws.retain(|w| w.id != id);
            }
            world.ended.fetch_add(1, Ordering::SeqCst);
        }
    }
}

