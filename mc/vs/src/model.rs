//! What the editor must show: documents as the editor has them, and answers
//! computed from a fresh parse of the text.
use std::collections::BTreeMap;

use fall_editor::EditorFileImpl;
use fall_gen::TestRenderer;
use fall_tree::{tu, TextEdit, TextRange, TextUnit};
use lang_fall::editor::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;
use serde_json::{json, Value as Json};

use crate::host::Plugin;

/// Places between characters, and not within a line break.
pub fn stops(text: &str) -> Vec<usize> {
    let mut r: Vec<usize> = text
        .char_indices()
        .map(|(i, _)| i)
        .filter(|&i| !(text[i..].starts_with('\n') && text[..i].ends_with('\r')))
        .collect();
    r.push(text.len());
    r
}

pub fn utf16_len(text: &str) -> usize {
    text.chars().map(|c| c.len_utf16()).sum()
}

/// Line and character of a place, as editors count.
pub fn pos(text: &str, byte: usize) -> Json {
    let mut before = &text[..byte];
    if text[byte..].starts_with('\n') && before.ends_with('\r') {
        before = &before[..before.len() - 1];
    }
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    json!([line, utf16_len(&before[start..])])
}

pub fn range(text: &str, r: TextRange) -> Json {
    json!([pos(text, r.start().utf8_len()), pos(text, r.end().utf8_len())])
}

/// The place of a position, or the nearest one there is.
pub fn byte(text: &str, at: &Json) -> usize {
    let (line, col) = (at[0].as_u64().unwrap() as usize, at[1].as_u64().unwrap() as usize);
    let mut start = 0;
    for _ in 0..line {
        match text[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return text.len(),
        }
    }
    let mut units = 0;
    for (i, c) in text[start..].char_indices() {
        if units >= col || c == '\n' || c == '\r' {
            return start + i;
        }
        units += c.len_utf16();
    }
    text.len()
}

fn bytes(text: &str, r: &Json) -> TextRange {
    TextRange::from_to(unit(byte(text, &r[0])), unit(byte(text, &r[1])))
}

pub fn unit(i: usize) -> TextUnit {
    tu(i as u32)
}

pub enum Fresh {
    Fall(FileWithAnalysis),
    Rust(RustEditorFile),
}

macro_rules! each {
    ($it:expr, $f:ident => $e:expr) => {
        match $it {
            Fresh::Fall($f) => $e,
            Fresh::Rust($f) => $e,
        }
    };
}

impl Fresh {
    pub fn new(p: Plugin, text: &str) -> Fresh {
        match p {
            Plugin::Fall => Fresh::Fall(EditorFileImpl::parse(text)),
            Plugin::Rust => Fresh::Rust(EditorFileImpl::parse(text)),
        }
    }
    fn apply(&self, edit: TextEdit) -> String {
        let text = each!(self, f => EditorFileImpl::file(f).text());
        edit.apply(text).as_text().to_string()
    }
    pub fn actions(&self, r: TextRange) -> Vec<&'static str> {
        each!(self, f => f.context_actions(r))
    }
    fn all_actions(&self, r: TextRange) -> Vec<&'static str> {
        let mut titles = self.actions(r);
        if let Fresh::Fall(f) = self {
            if f.test_at_offset(r.start()).is_some() {
                titles.push("Render test");
            }
        }
        titles.sort();
        titles
    }
}

/// The documents of the editor.
#[derive(Clone, Debug)]
pub struct Editor {
    pub plugin: Plugin,
    pub docs: BTreeMap<String, String>,
    pub active: Option<String>,
    pub selections: Json,
    /// What the other group of editors shows
    rendered: Option<usize>,
    tree: bool,
    last_tree: Option<String>,
    last_rendered: Option<String>,
}

pub enum Expect {
    Done,
    Is(Json),
    /// The same lists but for their order
    Same(Json),
    /// These, and perhaps others
    Among(Vec<Json>),
}

fn eol(text: &str) -> &'static str {
    if text.contains("\r\n") { "\r\n" } else { "\n" }
}

/// New text of a document with the line breaks of the old one.
fn normalized(old: &str, new: &str) -> String {
    let lf = new.replace("\r\n", "\n").replace('\r', "\n");
    if eol(old) == "\n" { lf } else { lf.replace('\n', "\r\n") }
}

/// `text` with parts (UTF-16 offsets) replaced.
pub fn changed(text: &str, changes: &Json) -> String {
    let units: Vec<u16> = text.encode_utf16().collect();
    let mut all: Vec<(usize, usize, &str)> = changes
        .as_array()
        .unwrap()
        .iter()
        .map(|c| (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize, c[2].as_str().unwrap()))
        .collect();
    all.sort_by_key(|c| (c.0, c.1));
    let mut out: Vec<u16> = Vec::new();
    let mut at = 0;
    for (start, end, new) in all {
        out.extend(&units[at..start]);
        out.extend(new.encode_utf16());
        at = end;
    }
    out.extend(&units[at..]);
    String::from_utf16(&out).unwrap()
}

impl Editor {
    pub fn new(plugin: Plugin) -> Editor {
        Editor { plugin, docs: BTreeMap::new(), active: None, selections: json!([]), rendered: None, tree: false, last_tree: None, last_rendered: None }
    }

    fn knows(&self, path: &str) -> bool {
        path.ends_with(&format!(".{}", self.plugin.ext()))
    }

    fn path<'a>(&self, op: &'a Json) -> &'a str {
        op["path"].as_str().unwrap()
    }

    /// What the operation must answer; changes the documents as it does.
    pub fn step(&mut self, op: &Json) -> Expect {
        let before = self.active.as_ref().and_then(|it| self.docs.get(it)).cloned();
        let result = self.expect(op);
        if let Some(active) = self.active.clone() {
            if self.tree && self.knows(&active) && before.is_some() && self.docs.get(&active) != before.as_ref() && op["op"] != "activate" {
                self.show_tree(&active)
            }
        }
        result
    }

    fn expect(&mut self, op: &Json) -> Expect {
        let name = op["op"].as_str().unwrap();
        match name {
            "present" | "open" => {
                self.last_tree = None;
                self.docs.insert(self.path(op).to_string(), op["text"].as_str().unwrap().to_string());
                return Expect::Done;
            }
            "start" | "indexed" => return Expect::Done,
            "save" => {
                self.last_rendered = None;
                if let (Some(n), Some(active)) = (self.rendered, &self.active) {
                    if self.knows(active) {
                        if let Fresh::Fall(f) = Fresh::new(self.plugin, &self.docs[active]) {
                            self.last_rendered = Some(TestRenderer.render_one(EditorFileImpl::file(&f), n));
                        }
                    }
                }
                return Expect::Done;
            }
            "settle" => {
                let mut shown = Vec::new();
                if let Some(text) = &self.last_tree {
                    shown.push(json!([format!("fall-{}://syntaxtree", self.plugin.ext()), text]));
                }
                if let Some(text) = &self.last_rendered {
                    shown.push(json!(["fall-tests://render", text.replace("\r\n", "\n")]));
                }
                return Expect::Among(shown);
            }
            "close" => {
                self.last_tree = None;
                let path = self.path(op).to_string();
                self.docs.remove(&path);
                if self.active.as_ref() == Some(&path) {
                    self.active = None;
                }
                return Expect::Done;
            }
            "activate" => {
                self.last_tree = None;
                self.active = op["path"].as_str().map(|it| it.to_string());
                self.selections = json!([[[0, 0], [0, 0]]]);
                return Expect::Done;
            }
            "workspaceSymbols" => return Expect::Same(op["expected"].clone()),
            _ => (),
        }
        let path = match op["path"].as_str() {
            Some(path) => path.to_string(),
            None => match &self.active {
                Some(path) => path.clone(),
                None => return Expect::Is(if name == "shown" { json!(null) } else { return Expect::Done }),
            },
        };
        let text = self.docs[&path].clone();
        if !self.knows(&path) {
            return match name {
                "text" => Expect::Is(json!(text)),
                "change" => {
                    self.docs.insert(path, changed(&text, &op["changes"]));
                    Expect::Done
                }
                "select" => {
                    self.selections = op["selections"].clone();
                    Expect::Done
                }
                "selections" => Expect::Is(self.selections.clone()),
                _ => Expect::Done,
            };
        }
        let plugin = self.plugin;
        let fresh = || Fresh::new(plugin, &text);
        let at = || unit(byte(&text, &op["at"]));
        let result = match name {
            "text" => Expect::Is(json!(text)),
            "change" => {
                let new = changed(&text, &op["changes"]);
                self.docs.insert(path, new);
                Expect::Done
            }
            "shown" => {
                let mut by_tag: BTreeMap<&str, Vec<Json>> = BTreeMap::new();
                for (r, tag) in each!(&fresh(), f => f.highlight()) {
                    by_tag.entry(tag.0).or_default().push(range(&text, r));
                }
                let decorations: Vec<Json> = by_tag.into_iter().map(|(_, rs)| json!(rs)).collect();
                let mut shown = json!({ "decorations": decorations });
                if self.plugin == Plugin::Fall {
                    shown["diagnostics"] = diagnostics(&fresh(), &text);
                }
                Expect::Is(shown)
            }
            "symbols" => Expect::Is(json!(each!(&fresh(), f => f.structure())
                .into_iter()
                .map(|n| json!([n.name, range(&text, n.range)]))
                .collect::<Vec<_>>())),
            "applyFormat" => {
                if let Fresh::Fall(f) = fresh() {
                    let new = fresh().apply(f.reformat());
                    self.docs.insert(path, normalized(&text, &new));
                }
                Expect::Done
            }
            "actions" => Expect::Same(json!(fresh().all_actions(bytes(&text, &op["range"])))),
            "applyAction" | "runAction" => {
                let r = bytes(&text, &op["range"]);
                let title = op["title"].as_str().unwrap();
                let fresh = fresh();
                if title == "Render test" {
                    if let Fresh::Fall(f) = &fresh {
                        let n = match f.test_at_offset(r.start()) {
                            Some(n) => n,
                            None => return Expect::Is(json!(false)),
                        };
                        self.rendered = Some(n);
                        self.last_rendered = Some(TestRenderer.render_one(EditorFileImpl::file(f), n));
                    }
                    Expect::Is(json!(true))
                } else if name == "applyAction" && !fresh.actions(r).contains(&title) {
                    Expect::Is(json!(false))
                } else {
                    if let Some(edit) = each!(&fresh, f => f.apply_context_action(r, title)) {
                        let new = fresh.apply(edit);
                        self.docs.insert(path, normalized(&text, &new));
                    }
                    if name == "runAction" { Expect::Done } else { Expect::Is(json!(true)) }
                }
            }
            "definition" => match fresh() {
                Fresh::Fall(f) => Expect::Is(json!([f
                    .resolve_reference(at())
                    .map(|r| json!([format!("file://{}", path), range(&text, r)]))])),
                _ => Expect::Is(json!([])),
            },
            "references" => match fresh() {
                Fresh::Fall(f) => Expect::Same(json!(f
                    .find_usages(at())
                    .into_iter()
                    .map(|r| json!([format!("file://{}", path), range(&text, r)]))
                    .collect::<Vec<_>>())),
                _ => Expect::Same(json!([])),
            },
            "onType" => match fresh() {
                Fresh::Rust(f) => Expect::Is(match f.after_space_typed(at()) {
                    None => json!([null]),
                    Some(new) => json!([[[[op["at"], op["at"]], new]]]),
                }),
                _ => Expect::Is(json!([])),
            },
            "applyOnType" => {
                if let Fresh::Rust(f) = fresh() {
                    if let Some(edit) = f.expand(at()) {
                        let new = fresh().apply(edit);
                        self.docs.insert(path, normalized(&text, &new));
                    }
                }
                Expect::Done
            }
            "select" => {
                self.selections = op["selections"].clone();
                match fresh() {
                    Fresh::Rust(f) => {
                        let active = unit(byte(&text, &op["selections"][0][1]));
                        Expect::Is(json!([f.breadcrumbs(active).join(" $(chevron-right) ")]))
                    }
                    _ => Expect::Done,
                }
            }
            "command" if op["name"].as_str().unwrap().ends_with("semanticSelection") => {
                let fresh = fresh();
                let new: Vec<Json> = self
                    .selections
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|s| {
                        let old = bytes(&text, &json!([s[0], s[1]]));
                        let new = each!(&fresh, f => f.extend_selection(old));
                        new.map_or(s.clone(), |r| range(&text, r))
                    })
                    .collect();
                self.selections = json!(new);
                Expect::Done
            }
            "command" if op["name"].as_str().unwrap().ends_with("showSyntaxTree") => {
                self.tree = true;
                self.show_tree(&path);
                Expect::Done
            }
            "selections" => Expect::Is(self.selections.clone()),
            "content" => Expect::Is(json!(each!(&fresh(), f => f.syntax_tree()))),
            name => panic!("unknown operation {}", name),
        };
        result
    }

    fn show_tree(&mut self, active: &str) {
        let fresh = Fresh::new(self.plugin, &self.docs[active]);
        self.last_tree = Some(each!(&fresh, f => f.syntax_tree()).replace("\r\n", "\n"));
    }
}

fn diagnostics(fresh: &Fresh, text: &str) -> Json {
    let ds: Vec<Json> = each!(fresh, f => f.diagnostics())
        .into_iter()
        .map(|d| {
            let severity = match d.severity {
                fall_editor::Severity::Error => 0,
                fall_editor::Severity::Warning => 1,
            };
            json!([range(text, d.range), d.message, severity])
        })
        .collect();
    json!(ds)
}

/// Sorts lists of lists for a comparison which does not depend on order.
pub fn sorted(v: &Json) -> Json {
    match v {
        Json::Array(items) => {
            let mut items: Vec<Json> = items.clone();
            items.sort_by_key(|it| it.to_string());
            Json::Array(items)
        }
        other => other.clone(),
    }
}
