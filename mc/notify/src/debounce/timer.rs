//! notify's timer with the clock taken out: `fire_oldest` is what happens when
//! the delay of the oldest scheduled event is over.
//! The body of `fire_event` is notify's.

use super::super::{op, DebouncedEvent};
use super::{OperationsBuffer, Tx};

use std::collections::VecDeque;
use std::path::PathBuf;

struct ScheduledEvent {
    id: u64,
    seq: u64,
    path: PathBuf,
}

pub struct WatchTimer {
    counter: u64,
    tx: Tx,
    operations_buffer: OperationsBuffer,
    events: VecDeque<ScheduledEvent>,
}

impl WatchTimer {
    pub fn new(tx: Tx, operations_buffer: OperationsBuffer) -> WatchTimer {
        WatchTimer { counter: 0, tx, operations_buffer, events: VecDeque::new() }
    }

    pub fn schedule(&mut self, path: PathBuf) -> u64 {
        self.counter = self.counter.wrapping_add(1);
        let seq = self.tx.tick();
        self.events.push_back(ScheduledEvent { id: self.counter, seq, path });
        self.counter
    }

    pub fn ignore(&mut self, id: u64) {
        let index = self.events.iter().rposition(|e| e.id == id);
        if let Some(index) = index {
            self.events.remove(index);
        }
    }

    pub fn pending(&self) -> usize {
        self.events.len()
    }

    /// When the oldest event was scheduled.
    pub fn oldest(&self) -> Option<u64> {
        self.events.front().map(|e| e.seq)
    }

    pub fn fire_oldest(&mut self) {
        if let Some(ScheduledEvent { path, .. }) = self.events.pop_front() {
            self.fire_event(path)
        }
    }

    fn fire_event(&self, path: PathBuf) {
        let mut op_buf = self.operations_buffer.lock().unwrap();
        if let Some((op, from_path, _)) = op_buf.remove(&path) {
            let is_partial_rename = from_path.is_none();
            if let Some(from_path) = from_path {
                self.tx
                    .send(DebouncedEvent::Rename(from_path, path.clone()))
                    .unwrap();
            }
            let message = match op {
                Some(op::Op::CREATE) => Some(DebouncedEvent::Create(path)),
                Some(op::Op::WRITE) => Some(DebouncedEvent::Write(path)),
                Some(op::Op::CHMOD) => Some(DebouncedEvent::Chmod(path)),
                Some(op::Op::REMOVE) => Some(DebouncedEvent::Remove(path)),
                Some(op::Op::RENAME) if is_partial_rename => {
                    if path.exists() {
                        Some(DebouncedEvent::Create(path))
                    } else {
                        Some(DebouncedEvent::Remove(path))
                    }
                }
                _ => None,
            };
            if let Some(m) = message {
                let _ = self.tx.send(m);
            }
        }
    }
}
