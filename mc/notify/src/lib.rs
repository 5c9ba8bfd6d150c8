//! A stand-in for notify 4.0.15 (CC0-1.0).
//!
//! The public types are notify's, `debounce/mod.rs` is notify's own debouncer,
//! unchanged but for its imports and the type of its channel.  What is simulated
//! is the kernel (a harness reports the raw events through `sim::World`), the
//! clock (`debounce/timer.rs` fires when the harness says so) and the channel to
//! the client (an outbox from which the harness delivers).

#[macro_use]
extern crate bitflags;

pub use self::op::Op;
use std::error::Error as StdError;
use std::fmt;
use std::io;
use std::path::{Path, PathBuf};
use std::result::Result as StdResult;
use std::sync::mpsc::Sender;
use std::time::Duration;

mod debounce;
pub mod sim;

pub use sim::INotifyWatcher;

pub mod op {
    bitflags! {
        pub struct Op: u32 {
            const CHMOD       = 0b000_0001;
            const CREATE      = 0b000_0010;
            const REMOVE      = 0b000_0100;
            const RENAME      = 0b000_1000;
            const WRITE       = 0b001_0000;
            const CLOSE_WRITE = 0b010_0000;
            const RESCAN      = 0b100_0000;
        }
    }

    pub const CHMOD: Op = Op::CHMOD;
    pub const CREATE: Op = Op::CREATE;
    pub const REMOVE: Op = Op::REMOVE;
    pub const RENAME: Op = Op::RENAME;
    pub const WRITE: Op = Op::WRITE;
    pub const CLOSE_WRITE: Op = Op::CLOSE_WRITE;
    pub const RESCAN: Op = Op::RESCAN;
}

#[derive(Debug)]
pub struct RawEvent {
    pub path: Option<PathBuf>,
    pub op: Result<Op>,
    pub cookie: Option<u32>,
}

#[derive(Debug)]
pub enum DebouncedEvent {
    NoticeWrite(PathBuf),
    NoticeRemove(PathBuf),
    Create(PathBuf),
    Write(PathBuf),
    Chmod(PathBuf),
    Remove(PathBuf),
    Rename(PathBuf, PathBuf),
    Rescan,
    Error(Error, Option<PathBuf>),
}

impl PartialEq for DebouncedEvent {
    fn eq(&self, other: &DebouncedEvent) -> bool {
        match (self, other) {
            (&DebouncedEvent::NoticeWrite(ref a), &DebouncedEvent::NoticeWrite(ref b))
            | (&DebouncedEvent::NoticeRemove(ref a), &DebouncedEvent::NoticeRemove(ref b))
            | (&DebouncedEvent::Create(ref a), &DebouncedEvent::Create(ref b))
            | (&DebouncedEvent::Write(ref a), &DebouncedEvent::Write(ref b))
            | (&DebouncedEvent::Chmod(ref a), &DebouncedEvent::Chmod(ref b))
            | (&DebouncedEvent::Remove(ref a), &DebouncedEvent::Remove(ref b)) => a == b,
            (&DebouncedEvent::Rename(ref a1, ref a2), &DebouncedEvent::Rename(ref b1, ref b2)) => {
                a1 == b1 && a2 == b2
            }
            (&DebouncedEvent::Rescan, &DebouncedEvent::Rescan) => true,
            _ => false,
        }
    }
}

#[derive(Debug)]
pub enum Error {
    Generic(String),
    Io(io::Error),
    PathNotFound,
    WatchNotFound,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            Error::PathNotFound => write!(f, "No path was found."),
            Error::WatchNotFound => write!(f, "No watch was found."),
            Error::Generic(ref err) => write!(f, "{}", err),
            Error::Io(ref err) => write!(f, "{}", err),
        }
    }
}

pub type Result<T> = StdResult<T, Error>;

impl StdError for Error {}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::Io(err)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}

impl RecursiveMode {
    fn is_recursive(&self) -> bool {
        match *self {
            RecursiveMode::Recursive => true,
            RecursiveMode::NonRecursive => false,
        }
    }
}

pub trait Watcher: Sized {
    fn new_raw(tx: Sender<RawEvent>) -> Result<Self>;
    fn new(tx: Sender<DebouncedEvent>, delay: Duration) -> Result<Self>;
    fn watch<P: AsRef<Path>>(&mut self, path: P, recursive_mode: RecursiveMode) -> Result<()>;
    fn unwatch<P: AsRef<Path>>(&mut self, path: P) -> Result<()>;
}

pub type RecommendedWatcher = INotifyWatcher;

pub fn raw_watcher(tx: Sender<RawEvent>) -> Result<RecommendedWatcher> {
    Watcher::new_raw(tx)
}

pub fn watcher(tx: Sender<DebouncedEvent>, delay: Duration) -> Result<RecommendedWatcher> {
    Watcher::new(tx, delay)
}
