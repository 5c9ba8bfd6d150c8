//! A node process per explorer thread which runs the TypeScript side of the
//! plugins; the native modules run in this process.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use neon::vm::Native;
use serde_json::{json, Value as Json};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Plugin { Fall, Rust }

impl Plugin {
    pub fn name(self) -> &'static str {
        match self { Plugin::Fall => "fall", Plugin::Rust => "rust" }
    }
    pub fn ext(self) -> &'static str {
        match self { Plugin::Fall => "fall", Plugin::Rust => "rs" }
    }
}

/// The scripts made of the sources of the plugins.
pub struct Bundles {
    scripts: Json,
}

const HERE: &str = env!("CARGO_MANIFEST_DIR");

impl Bundles {
    pub fn new() -> Bundles {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let dir = PathBuf::from(format!("{}/mcvs-{}", base, std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut scripts = json!({});
        for p in [Plugin::Fall, Plugin::Rust].iter() {
            let main = format!("/repo/code/{}/src/main.ts", p.name());
            let out = dir.join(format!("{}.js", p.name()));
            let status = Command::new("node")
                .arg(format!("{}/js/bundle.js", HERE))
                .arg("/opt/veriftools/node/node_modules/esbuild")
                .arg(&main)
                .arg(&out)
                .status()
                .expect("node");
            if !status.success() {
                let _ = std::fs::remove_dir_all(&dir);
                eprintln!("{} can not be compiled", main);
                std::process::exit(2);
            }
            scripts[p.name()] = json!(std::fs::read_to_string(&out).unwrap());
        }
        let _ = std::fs::remove_dir_all(&dir);
        Bundles { scripts }
    }
}

struct Node {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    natives: BTreeMap<&'static str, BTreeMap<String, Native>>,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = RefCell::new(None);
}

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const PR_SET_PDEATHSIG: i32 = 1;
const SIGKILL: u64 = 9;

fn start(bundles: &Bundles) -> Node {
    let mut cmd = Command::new("node");
    cmd.arg(format!("{}/js/host.js", HERE));
    // it ends with this thread whatever it does, and holds no output of this process
    unsafe {
        cmd.pre_exec(|| {
            prctl(PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
            Ok(())
        });
    }
    let mut child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("node");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    let mut natives = BTreeMap::new();
    natives.insert("fall", neon::host::exports(fall_backend::__neon_main));
    natives.insert("rust", neon::host::exports(rust_backend::__neon_main));
    let mut node = Node { child, stdin, stdout, natives };
    node.send(&bundles.scripts);
    node
}

impl Node {
    fn send(&mut self, v: &Json) {
        let mut s = serde_json::to_string(v).unwrap();
        s.push('\n');
        self.stdin.write_all(s.as_bytes()).expect("node is gone");
    }
    fn receive(&mut self) -> Json {
        let mut line = String::new();
        self.stdout.read_line(&mut line).expect("node is gone");
        serde_json::from_str(&line).expect("node is gone")
    }
}

struct Conversation<'a> {
    slot: &'a mut Option<Node>,
    node: Option<Node>,
    over: bool,
}

impl<'a> Drop for Conversation<'a> {
    fn drop(&mut self) {
        if self.over {
            *self.slot = self.node.take();
        }
    }
}

/// Runs a script of editor operations against a new instance of the plugin:
/// `{"ok": answer}` or `{"error": message}` for each, and the number of calls
/// of the native module.
pub fn run(bundles: &Bundles, plugin: Plugin, folders: Json, ops: &[Json]) -> (Vec<Json>, u64) {
    NODE.with(|node| {
        let mut slot = node.borrow_mut();
        // after a panic in the middle of a conversation the next one is with a new process
        let mut conversation = Conversation { node: Some(slot.take().unwrap_or_else(|| start(bundles))), slot: &mut *slot, over: false };
        let over = &mut conversation.over;
        let node = conversation.node.as_mut().unwrap();
        neon::host::reset();
        let names: Vec<&String> = node.natives[plugin.name()].keys().collect();
        let m = json!({ "plugin": plugin.name(), "names": names, "folders": &folders, "ops": ops });
        node.send(&m);
        let mut calls = 0;
        loop {
            let m = node.receive();
            if let Some(done) = m.get("done") {
                neon::host::reset();
                *over = true;
                return (done.as_array().unwrap().clone(), calls);
            }
            if m.get("task").is_some() {
                let r = match neon::host::run_task() {
                    None => Json::Null,
                    Some((callback, value)) => json!({ "callback": callback, "value": value }),
                };
                node.send(&r);
                continue;
            }
            calls += 1;
            if m["call"] == "createIndex" && folders.is_null() {
                // an index without roots waits for events until the process ends
                node.send(&json!({}));
                continue;
            }
            let f = node.natives[plugin.name()][m["call"].as_str().unwrap()];
            let r = neon::host::call(f, m["args"].as_array().unwrap());
            node.send(&r);
        }
    })
}
