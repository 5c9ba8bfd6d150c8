//! C22: symbol search finds exactly the matching definitions.
//!
//! A real `SymbolIndex` watches a scratch directory whose notifications come from
//! the explorer.  The explorer writes files made of definitions whose kinds, names
//! and positions it knows, and asks all queries of a bounded language; a query is
//! answered by brute force over those definitions.

use std::cell::RefCell;
use std::fs;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, Instant};

use lang_rust::editor::SymbolIndex;
use lang_rust::syntax::{ENUM_DEF, FN_DEF, MOD_DEF, STRUCT_DEF, TRAIT_DEF, TYPE_DEF};
use mccore::util::{fnv, n_strings, nth_string, Radix};
use mccore::{Ctx, Family, Tier};
use notify::sim::World;
use notify::DebouncedEvent;

/// A definition: kind, name, offsets.
#[derive(Clone, Debug, PartialEq)]
struct Def {
    kind: Kind,
    name: String,
    start: usize,
    end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Fn, Struct, Enum, Type, Trait, Mod }

impl Kind {
    fn is_type(self) -> bool {
        match self {
            Kind::Struct | Kind::Enum | Kind::Type | Kind::Trait => true,
            _ => false,
        }
    }
    fn ty(self) -> fall_tree::NodeType {
        match self {
            Kind::Fn => FN_DEF,
            Kind::Struct => STRUCT_DEF,
            Kind::Enum => ENUM_DEF,
            Kind::Type => TYPE_DEF,
            Kind::Trait => TRAIT_DEF,
            Kind::Mod => MOD_DEF,
        }
    }
}

/// A text in the making: `{K name|` opens a definition, `|}` closes it.
#[derive(Clone, Default, Debug)]
struct Source {
    text: String,
    defs: Vec<Def>,
}

impl Source {
    fn plain(&mut self, s: &str) -> &mut Source {
        self.text += s;
        self
    }
    fn def(&mut self, kind: Kind, name: &str, body: &dyn Fn(&mut Source)) -> &mut Source {
        let start = self.text.len();
        let k = self.defs.len();
        self.defs.push(Def { kind, name: name.to_owned(), start, end: 0 });
        body(self);
        self.defs[k].end = self.text.len();
        self
    }
    fn simple(&mut self, kind: Kind, name: &str) -> &mut Source {
        let text = match kind {
            Kind::Fn => format!("fn {}() {{}}", name),
            Kind::Struct => format!("struct {};", name),
            Kind::Enum => format!("enum {} {{}}", name),
            Kind::Type => format!("type {} = u8;", name),
            Kind::Trait => format!("trait {} {{}}", name),
            Kind::Mod => format!("mod {} {{}}", name),
        };
        self.def(kind, name, &|s| {
            s.plain(&text);
        })
    }
}

impl Source {
    /// The syntax tree decides which blanks and comments before a definition are a
    /// part of it.
    fn finish(mut self) -> Source {
        let file = lang_rust::syntax::lang_rust().parse(self.text.clone());
        for d in &mut self.defs {
            let start = d.start;
            each_node(file.root(), &mut |n: fall_tree::Node| {
                let (a, b) = (u32::from(n.range().start()) as usize, u32::from(n.range().end()) as usize);
                if n.ty() == d.kind.ty() && b == d.end && a <= start && file.text().to_string()[a..start].trim().is_empty() {
                    d.start = a;
                }
            });
        }
        self
    }
}

fn each_node(n: fall_tree::Node, f: &mut dyn FnMut(fall_tree::Node)) {
    f(n);
    for c in n.children() {
        each_node(c, f)
    }
}

struct Env {
    dir: PathBuf,
    world: Arc<World>,
    index: SymbolIndex,
    marks: u64,
    files: Vec<Option<Source>>,
}

const FILES: usize = 2;

impl Drop for Env {
    fn drop(&mut self) {
        self.world.end();
        let _ = fs::remove_dir_all(&self.dir);
    }
}

impl Env {
    fn new() -> Env {
        let dir = crate::c21::scratch();
        let world = World::new(dir.clone(), Arc::new(|_| ()));
        let index = SymbolIndex::new(vec![dir.clone()]);
        Env { dir, world, index, marks: 0, files: vec![None; FILES] }
    }

    fn file(&self, k: usize) -> PathBuf {
        self.dir.join(format!("f{}.rs", k))
    }

    fn tell(&self, e: DebouncedEvent) -> Result<(), String> {
        let deadline = Instant::now() + Duration::from_secs(20);
        while !self.world.watched() {
            if Instant::now() > deadline {
                return Err("the index watches nothing".to_owned());
            }
            std::thread::yield_now();
        }
        if self.world.inject(e) { Ok(()) } else { Err("the index has stopped listening".to_owned()) }
    }

    fn set(&mut self, k: usize, s: Option<Source>) -> Result<(), String> {
        if self.files[k].is_none() && s.is_none() {
            return Ok(());
        }
        let path = self.file(k);
        let s = s.map(Source::finish);
        match &s {
            Some(src) => {
                fs::write(&path, &src.text).unwrap();
                self.tell(DebouncedEvent::Write(path))?;
            }
            None => {
                fs::remove_file(&path).unwrap();
                self.tell(DebouncedEvent::Remove(path))?;
            }
        }
        self.files[k] = s;
        Ok(())
    }

    /// Waits until everything it was told is in the index.
    fn settle(&mut self) -> Result<(), String> {
        for _ in 0..2 {
            self.marks += 1;
            let path = self.dir.join("marker.rs");
            fs::write(&path, self.marker().text).unwrap();
            self.tell(DebouncedEvent::Write(path))?;
            let query = self.marker().defs[0].name.clone();
            let deadline = Instant::now() + Duration::from_secs(20);
            while !self.index.query(&query).iter().any(|(_, s)| s.name == query) {
                if self.world.deserted() || Instant::now() > deadline {
                    return Err(format!("a new `struct {};` is not found", query));
                }
                std::thread::yield_now();
            }
        }
        Ok(())
    }

    fn marker(&self) -> Source {
        let mut s = Source::default();
        s.simple(Kind::Struct, &format!("QQ{}", self.marks));
        s
    }

    fn expected(&self, query: &str) -> Vec<String> {
        let all = query.contains('#');
        let query: String = query.chars().filter(|&c| c != '#').collect();
        let mut sources: Vec<(PathBuf, Source)> = vec![(self.dir.join("marker.rs"), self.marker())];
        for (k, f) in self.files.iter().enumerate() {
            if let Some(s) = f {
                sources.push((self.file(k), s.clone()))
            }
        }
        let find = |all: bool| -> Vec<String> {
            let mut v = Vec::new();
            for (path, s) in &sources {
                for d in &s.defs {
                    if (all || d.kind.is_type()) && is_subsequence(&query, &d.name) {
                        v.push(format!(
                            "{} {:?} {} {}..{} {:?}-{:?}",
                            path.file_name().unwrap().to_str().unwrap(), d.kind.ty(), d.name, d.start, d.end,
                            line_col(&s.text, d.start), line_col(&s.text, d.end),
                        ));
                    }
                }
            }
            v.sort();
            v
        };
        let mut r = find(all);
        if r.is_empty() && !all {
            r = find(true);
        }
        r
    }

    fn actual(&self, query: &str) -> Result<Vec<String>, String> {
        let mut v: Vec<String> = mccore::guarded(|| Ok(self.index.query(query)))?.into_iter().map(|(path, s)| {
            format!(
                "{} {:?} {} {}..{} {:?}-{:?}",
                path.file_name().unwrap().to_str().unwrap(), s.ty, s.name,
                u32::from(s.range.start()), u32::from(s.range.end()),
                (s.lc_range[0].line, s.lc_range[0].col), (s.lc_range[1].line, s.lc_range[1].col),
            )
        }).collect();
        v.sort();
        Ok(v)
    }

    fn judge(&self, query: &str) -> Result<u64, String> {
        let expected = self.expected(query);
        let actual = self.actual(query)?;
        if expected.len() > CUT_OFF {
            if actual.len() < CUT_OFF {
                return Err(format!("{:?} finds {} of {}", query, actual.len(), expected.len()));
            }
            for w in actual.windows(2) {
                if w[0] == w[1] {
                    return Err(format!("{:?} finds twice {}", query, w[0]));
                }
            }
            if let Some(a) = actual.iter().find(|a| expected.binary_search(a).is_err()) {
                return Err(format!("{:?} finds {}", query, a));
            }
        } else if expected != actual {
            return Err(format!("{:?} finds\n    {:?}\n  should find\n    {:?}", query, actual, expected));
        }
        Ok(fnv(actual.join(" ").as_bytes()))
    }
}

const CUT_OFF: usize = 512;

fn is_subsequence(query: &str, name: &str) -> bool {
    let mut name = name.chars().flat_map(char::to_lowercase);
    query.chars().flat_map(char::to_lowercase).all(|q| name.any(|c| c == q))
}

/// As editors count: UTF-16 code units.
fn line_col(text: &str, offset: usize) -> (u32, u32) {
    let before = &text[..offset];
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line as u32, before[start..].encode_utf16().count() as u32)
}

thread_local! {
    static ENV: RefCell<Option<Env>> = RefCell::new(None);
}

fn with_env(key: &dyn Fn() -> String, ctx: &mut Ctx, f: &dyn Fn(&mut Env, &mut Ctx) -> Result<(), String>) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            *e = Some(Env::new());
        }
        if let Err(m) = f(e.as_mut().unwrap(), ctx) {
            *e = None;
            ctx.fail(key(), m);
        }
    })
}

fn ask(env: &Env, ctx: &mut Ctx, query: &str) -> Result<(), String> {
    ctx.transition();
    let h = env.judge(query)?;
    ctx.outcome(h);
    Ok(())
}

const NAME: &[&str] = &["a", "B", "_", "é", "à", "ȩ", "Σ", "\u{10400}"];
const QUERY: &[&str] = &["a", "b", "A", "_", "é", "É", "à", "ȩ", "σ", "Σ", "\u{10428}", "#"];

fn word(alphabet: &[&str], i: u64) -> String {
    nth_string(alphabet.len() as u64, i).into_iter().map(|k| alphabet[k]).collect()
}

fn names(tier: Tier) -> Family {
    let len = tier.pick(3, 4);
    const BATCH: u64 = 40;
    let n = n_strings(NAME.len() as u64, len);
    let nq = n_strings(QUERY.len() as u64, 3);
    Family::new(
        "names",
        format!("structs, functions, or both in turns, with names of up to {} characters of {:?}, {} at a time in one file; all queries of up to 3 characters of {:?}", len, NAME, BATCH, QUERY),
        (n + BATCH - 1) / BATCH * 3,
        move |i, ctx| {
            let (b, mode) = (i / 3, i % 3);
            let mut s = Source::default();
            for j in b * BATCH..((b + 1) * BATCH).min(n) {
                let w = word(NAME, j);
                // These are not names.
                if w.chars().all(|c| c == '_') {
                    continue;
                }
                let kind = if mode == 0 || mode == 2 && j % 2 == 0 { Kind::Struct } else { Kind::Fn };
                s.simple(kind, &w).plain("\n");
            }
            ctx.state();
            with_env(&|| format!("named {:?}", s.defs.iter().map(|d| format!("{:?} {}", d.kind, d.name)).collect::<Vec<_>>()), ctx, &|env, ctx| {
                env.set(0, Some(s.clone()))?;
                env.set(1, None)?;
                env.settle()?;
                for q in 0..nq {
                    ask(env, ctx, &word(QUERY, q))?;
                }
                Ok(())
            })
        },
    )
}

type Item = fn(&mut Source);

const ITEMS: &[(&str, Item)] = &[
    ("struct a", |s| { s.simple(Kind::Struct, "a"); }),
    ("struct A", |s| { s.simple(Kind::Struct, "A"); }),
    ("pub struct with fields", |s| { s.def(Kind::Struct, "ab", &|s| { s.plain("pub struct ab<T> {\n  a: T,\n}"); }); }),
    ("enum a", |s| { s.def(Kind::Enum, "a", &|s| { s.plain("enum a { b, c }"); }); }),
    ("type b", |s| { s.simple(Kind::Type, "b"); }),
    ("trait with a method", |s| { s.def(Kind::Trait, "ba", &|s| { s.plain("trait ba { "); s.def(Kind::Fn, "a", &|s| { s.plain("fn a(&self);"); }); s.plain(" }"); }); }),
    ("fn b", |s| { s.simple(Kind::Fn, "b"); }),
    ("fn with a struct", |s| { s.def(Kind::Fn, "aa", &|s| { s.plain("fn aa() { "); s.simple(Kind::Struct, "B"); s.plain(" }"); }); }),
    ("mod with definitions", |s| { s.def(Kind::Mod, "éb", &|s| { s.plain("mod éb { "); s.simple(Kind::Struct, "b"); s.plain(" "); s.simple(Kind::Fn, "ab"); s.plain(" }"); }); }),
    ("mod of wide name", |s| { s.def(Kind::Mod, "\u{10400}", &|s| { s.plain("mod \u{10400} {\r\n"); s.simple(Kind::Enum, "ab"); s.plain(" "); s.simple(Kind::Trait, "É"); s.plain("}"); }); }),
    ("mod file", |s| { s.def(Kind::Mod, "a", &|s| { s.plain("mod a;"); }); }),
    ("impl with methods", |s| { s.plain("impl a { "); s.def(Kind::Fn, "ab", &|s| { s.plain("fn ab() {}"); }); s.plain(" "); s.def(Kind::Fn, "b", &|s| { s.plain("pub fn b() {}"); }); s.plain(" }"); }),
    ("use", |s| { s.plain("use a::b;"); }),
    ("const", |s| { s.plain("const ab: u8 = 1;"); }),
];

const GAPS: &[&str] = &["\n", " ", "\r\n\r\n"];

const QUERIES: &[&str] = &["", "#", "a", "#a", "A", "b#", "ab", "#ab", "ba", "##a", "é", "é#", "\u{10428}", "aab", "x", "#x", "QQ", "#Q"];

fn definitions(tier: Tier) -> Family {
    let k = ITEMS.len() as u64;
    let (most, second) = (tier.pick(2, 3), tier.pick(1, 2));
    let n = n_strings(k, most);
    let n2 = n_strings(k, second);
    Family::new(
        "definitions",
        format!("a file of up to {} items of {} with {} separators and one of up to {} items, {} queries", most, k, GAPS.len(), second, QUERIES.len()),
        n * GAPS.len() as u64 * n2,
        move |i, ctx| {
            let mut r = Radix(i);
            let gap = GAPS[r.take(GAPS.len())];
            let second: Vec<usize> = nth_string(k, r.take(n2 as usize) as u64);
            let first = nth_string(k, r.0);
            let build = |items: &[usize]| {
                let mut s = Source::default();
                for (n, &j) in items.iter().enumerate() {
                    if n > 0 {
                        s.plain(gap);
                    }
                    ITEMS[j].1(&mut s);
                }
                s
            };
            let (a, b) = (build(&first), build(&second));
            ctx.state();
            with_env(&|| format!("{:?} and {:?}", a.text, b.text), ctx, &|env, ctx| {
                env.set(0, Some(a.clone()))?;
                env.set(1, Some(b.clone()))?;
                env.settle()?;
                for q in QUERIES {
                    ask(env, ctx, q)?;
                }
                Ok(())
            })
        },
    )
}

fn updates(tier: Tier) -> Family {
    let len = tier.pick(3, 5);
    // Contents of the files: nothing there, or one of the items.
    let contents: &[Option<usize>] = &[None, Some(0), Some(1), Some(6), Some(8)];
    let k = contents.len() * FILES;
    Family::new(
        "updates",
        format!("{} changes of two files, each removed or rewritten to one of {} contents; {} queries after each", len, contents.len() - 1, QUERIES.len()),
        (k as u64).pow(len),
        move |i, ctx| {
            let contents: &[Option<usize>] = &[None, Some(0), Some(1), Some(6), Some(8)];
            let mut r = Radix(i);
            let steps: Vec<(usize, Option<usize>)> = (0..len).map(|_| (r.take(FILES), contents[r.take(contents.len())])).collect();
            ctx.state();
            with_env(&|| format!("{:?}", steps), ctx, &|env, ctx| {
                env.set(0, None)?;
                env.set(1, None)?;
                for &(f, c) in &steps {
                    env.set(f, c.map(|c| {
                        let mut s = Source::default();
                        ITEMS[c].1(&mut s);
                        s
                    }))?;
                    env.settle()?;
                    for q in QUERIES {
                        ask(env, ctx, q)?;
                    }
                }
                Ok(())
            })
        },
    )
}

fn many(_tier: Tier) -> Family {
    let sizes: &[usize] = &[0, 1, 200, 311, 312, 511, 512, 513, 600];
    let n = sizes.len() as u64;
    Family::new(
        "many",
        "two files of up to 600 structures and 600 functions, around the cut-off",
        n * n * 2,
        move |i, ctx| {
            let sizes: &[usize] = &[0, 1, 200, 311, 312, 511, 512, 513, 600];
            let mut r = Radix(i);
            let kind = if r.take(2) == 0 { Kind::Struct } else { Kind::Fn };
            let (a, b) = (sizes[r.take(sizes.len())], sizes[r.take(sizes.len())]);
            let build = |n: usize, prefix: &str| {
                let mut s = Source::default();
                for j in 0..n {
                    s.simple(kind, &format!("{}{}", prefix, j)).plain("\n");
                }
                s
            };
            ctx.state();
            with_env(&|| format!("{} and {} of {:?}", a, b, kind), ctx, &|env, ctx| {
                env.set(0, Some(build(a, "ab")))?;
                env.set(1, Some(build(b, "Abc")))?;
                env.settle()?;
                for q in &["ab", "#ab", "abc", "c#", "a", "b1"] {
                    ask(env, ctx, q)?;
                }
                Ok(())
            })
        },
    )
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![definitions(tier), names(tier), updates(tier), many(tier)]
}
